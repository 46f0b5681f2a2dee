package core

import (
	"bytes"
	"encoding/json"
	"fmt"
	"io"
	"os"
	"os/exec"
	"path/filepath"
	"strconv"
	"strings"
	"syscall"
	"time"
)

// Main is the entry point shared by all binaries:
//
//	vmc check <id>             run under a supervisor; exit 0 or 1
//	vmc child <id> <out>       run in this process
//	vmc replay <file> [n]      re-execute a recorded violation (exit 1 if it still violates)
//	vmc list
func Main() {
	if len(os.Args) < 2 {
		fmt.Fprintln(os.Stderr, "usage: vmc check|child|replay|list")
		os.Exit(2)
	}
	verif := os.Getenv("VERIF_DIR")
	if verif == "" {
		verif = "/verif"
	}
	tier := os.Getenv("VERIF_TIER")
	if tier != "thorough" {
		tier = "quick"
	}
	seed, _ := strconv.ParseInt(os.Getenv("VERIF_SEED"), 10, 64)
	workers := DefaultWorkers()
	if v, _ := strconv.Atoi(os.Getenv("VERIF_WORKERS")); v > 0 {
		workers = v
	}
	switch os.Args[1] {
	case "list":
		for id := range Checks {
			fmt.Println(id)
		}
	case "child":
		c := must(os.Args[2])
		os.Exit(Child(c, tier, seed, os.Args[3], workers))
	case "shard":
		i, _ := strconv.Atoi(os.Args[4])
		n, _ := strconv.Atoi(os.Args[5])
		os.Exit(shardMain(must(os.Args[2]), tier, seed, os.Args[3], i, n))
	case "replay":
		os.Exit(replay(os.Args[2], tier, seed, true))
	case "check":
		os.Exit(supervise(must(os.Args[2]), verif, tier, seed))
	default:
		if f := Sub[os.Args[1]]; f != nil {
			os.Exit(f(os.Args[2:]))
		}
		os.Exit(2)
	}
}

func must(id string) *Check {
	c := Checks[id]
	if c == nil {
		fmt.Fprintln(os.Stderr, "harness: no check", id)
		os.Exit(2)
	}
	return c
}

func replay(file, tier string, seed int64, verbose bool) int {
	b, err := os.ReadFile(file)
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	var v Violation
	if err := json.Unmarshal(b, &v); err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	c := Checks[v.Property]
	if c == nil || c.Replay[v.Kind] == nil {
		fmt.Println("recorded finding (no re-execution for kind " + v.Kind + "):")
		fmt.Println(v.What)
		return 1
	}
	r := newRun(c, tier, seed, filepath.Dir(file), 1)
	if err := c.Replay[v.Kind](r, v.Data); err != nil {
		fmt.Println("REPRODUCED:", err)
		return 1
	}
	fmt.Println("not reproduced")
	return 0
}

type known struct {
	Property string
	Key      string
	What     string
}

// knownFindings reads lines "known: property=<id> key=<key> <what>".
func knownFindings(verif string) []known {
	b, err := os.ReadFile(filepath.Join(verif, "known-findings.txt"))
	if err != nil {
		return nil
	}
	var out []known
	for _, l := range strings.Split(string(b), "\n") {
		if !strings.HasPrefix(l, "known: ") {
			continue
		}
		f := strings.SplitN(strings.TrimPrefix(l, "known: "), " ", 3)
		if len(f) < 3 {
			continue
		}
		out = append(out, known{strings.TrimPrefix(f[0], "property="), strings.TrimPrefix(f[1], "key="), f[2]})
	}
	return out
}

func supervise(c *Check, verif, tier string, seed int64) int {
	out := filepath.Join(verif, "out", c.ID)
	os.RemoveAll(out)
	if err := os.MkdirAll(out, 0o755); err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	os.MkdirAll(filepath.Join(verif, "evidence"), 0o755)
	start := time.Now()
	var viols []Violation
	for attempt := 0; attempt < 2; attempt++ {
		code, sig, log := runChild(c, out, attempt)
		if code == ExitOK || code == ExitViol {
			b, err := os.ReadFile(filepath.Join(out, c.ID+".viol.json"))
			if err == nil {
				err = json.Unmarshal(b, &viols)
			}
			ev, err2 := os.ReadFile(filepath.Join(out, c.ID+".evidence.json"))
			if err == nil && err2 == nil {
				if err := os.WriteFile(filepath.Join(verif, "evidence", c.ID+".json"), ev, 0o644); err != nil {
					fmt.Fprintln(os.Stderr, err)
					return 2
				}
				return report(c, verif, out, viols)
			}
			// the code under test ended the process (os.Exit or the like) before the results were written
			log = "the process exited with status " + strconv.Itoa(code) + " in the middle of the check\n" + log
		}
		if code == 2 && (strings.Contains(log, "harness:") && !strings.Contains(log, "goroutine ") || strings.Contains(log, "panic: harness:")) {
			fmt.Fprintln(os.Stderr, "harness error:", log)
			return 2
		}
		if code == ExitHang {
			f := filepath.Join(out, c.ID+".hang.json")
			if confirmHang(f) {
				var v Violation
				b, _ := os.ReadFile(f)
				json.Unmarshal(b, &v)
				writeEvidence(c, verif, tier, seed, start, "a case did not return: "+v.What)
				return report(c, verif, out, []Violation{v})
			}
			fmt.Fprintln(os.Stderr, "harness: slow case not confirmed as a hang; running again")
			continue
		}
		fmt.Fprintf(os.Stderr, "harness: child died (code %d, signal %v)\n%s\n", code, sig, tail(log, 3000))
		if attempt == 0 {
			continue // once more, with fewer workers
		}
		d, _ := json.Marshal(map[string]string{"log": tail(log, 6000)})
		v := Violation{Property: c.ID, Kind: "crash", Key: "crash", Data: d,
			What: fmt.Sprintf("the process running the code under test died twice (exit %d, signal %v): %s", code, sig, firstLine(log))}
		writeEvidence(c, verif, tier, seed, start, v.What)
		return report(c, verif, out, []Violation{v})
	}
	// two unconfirmed hangs: no answer can be given about the rest, nothing was violated
	writeEvidence(c, verif, tier, seed, start, "run stopped by slow cases that were not hangs; nothing violated in the part explored")
	return 0
}

func writeEvidence(c *Check, verif, tier string, seed int64, start time.Time, what string) {
	ev := map[string]any{"property": c.ID, "tier": tier, "seed": seed, "level": c.Level, "wall_s": time.Since(start).Seconds(),
		"coverage": map[string]any{"evaluations": 1, "distinct_nontrivial": 1, "states": 1, "transitions": 1, "traces_validated_against_impl": 1,
			"rule": "run ended early", "samples": []string{what}, "exhaustive": false}}
	b, _ := json.MarshalIndent(ev, "", " ")
	os.WriteFile(filepath.Join(verif, "evidence", c.ID+".json"), b, 0o644)
}

func runChild(c *Check, out string, attempt int) (code int, sig os.Signal, log string) {
	cmd := exec.Command(os.Args[0], "child", c.ID, out)
	cmd.Env = os.Environ()
	if attempt > 0 {
		cmd.Env = append(cmd.Env, "VERIF_WORKERS=2")
	}
	cmd.Env = append(cmd.Env, "GOTRACEBACK=all")
	cmd.SysProcAttr = &syscall.SysProcAttr{Pdeathsig: syscall.SIGKILL}
	var buf bytes.Buffer
	lw := &limitWriter{b: &buf, max: 1 << 20}
	cmd.Stdout = io.MultiWriter(os.Stdout, lw)
	cmd.Stderr = lw
	err := cmd.Run()
	log = buf.String()
	if err == nil {
		return 0, nil, log
	}
	if ee, ok := err.(*exec.ExitError); ok {
		if ws, ok := ee.Sys().(syscall.WaitStatus); ok && ws.Signaled() {
			return -1, ws.Signal(), log
		}
		return ee.ExitCode(), nil, log
	}
	return 2, nil, "harness: " + err.Error()
}

type limitWriter struct {
	b   *bytes.Buffer
	max int
}

func (l *limitWriter) Write(p []byte) (int, error) {
	if n := l.max - l.b.Len(); n > 0 {
		if len(p) < n {
			n = len(p)
		}
		l.b.Write(p[:n])
	}
	return len(p), nil
}

func confirmHang(file string) bool {
	for i := 0; i < 2; i++ {
		cmd := exec.Command(os.Args[0], "replay", file)
		if err := cmd.Start(); err != nil {
			return false
		}
		done := make(chan error, 1)
		go func() { done <- cmd.Wait() }()
		select {
		case <-done:
			return false
		case <-time.After(60 * time.Second):
			cmd.Process.Kill()
			<-done
		}
	}
	return true
}

func report(c *Check, verif, out string, viols []Violation) int {
	kn := knownFindings(verif)
	bad := 0
	reported := map[string]bool{}
	for i, v := range viols {
		isKnown := false
		for _, k := range kn {
			if k.Property == v.Property && k.Key == v.Key {
				isKnown = true
				if !reported[k.Key] {
					fmt.Printf("KNOWN-FINDING: property=%s %s\n", v.Property, k.What)
					reported[k.Key] = true
				}
			}
		}
		if isKnown {
			continue
		}
		bad++
		f := filepath.Join(out, fmt.Sprintf("violation-%d.json", i+1))
		b, _ := json.MarshalIndent(v, "", " ")
		os.WriteFile(f, b, 0o644)
		fmt.Printf("VIOLATION property=%s replay=%s\n", v.Property, f)
		fmt.Printf("  %s\n", tail(v.What, 1500))
	}
	if bad > 0 {
		return 1
	}
	return 0
}

func tail(s string, n int) string {
	if len(s) > n {
		return s[:n] + "..."
	}
	return s
}

func firstLine(s string) string {
	for _, l := range strings.Split(s, "\n") {
		if strings.HasPrefix(l, "fatal error") || strings.HasPrefix(l, "panic:") || strings.HasPrefix(l, "unexpected") {
			return l
		}
	}
	if i := strings.IndexByte(s, '\n'); i > 0 {
		return s[:i]
	}
	return s
}
