package core

import (
	"bytes"
	"encoding/json"
	"fmt"
	"io"
	"os"
	"os/exec"
	"path/filepath"
	"runtime/debug"
	"runtime/pprof"
	"strconv"
	"strings"
	"sync"
	"syscall"
)

type partial struct {
	Evals, Distinct int64
	Counts          map[string]int64
	Outcomes        map[string]int64
	Viol            []Violation
	Samples         []any
	Partial         []string
	Rule            string
	Cov             map[string]any
}

// RaceLog is where the race detector of this process writes its reports (a prefix; the pid is appended).
func RaceLog() string {
	for _, f := range strings.Fields(os.Getenv("GORACE")) {
		if strings.HasPrefix(f, "log_path=") {
			return strings.TrimPrefix(f, "log_path=") + "." + strconv.Itoa(os.Getpid())
		}
	}
	return ""
}

func goRace(dir string) string {
	return "halt_on_error=0 exitcode=0 atexit_sleep_ms=0 history_size=2 log_path=" + filepath.Join(dir, "race")
}

// shardMain runs one shard in this process.
func shardMain(c *Check, tier string, seed int64, out string, i, n int) int {
	r := newRun(c, tier, seed, out, 1)
	r.ShardI, r.ShardN = i, n
	debug.SetGCPercent(800)
	debug.SetMemoryLimit(600 << 20) // the race detector needs several times as much besides
	if f := os.Getenv("VERIF_PROFILE"); f != "" {
		if w, err := os.Create(filepath.Join(out, f)); err == nil {
			pprof.StartCPUProfile(w)
			defer pprof.StopCPUProfile()
		}
	}
	go r.watchdog()
	c.Shard(r)
	r.mu.Lock()
	p := partial{Evals: r.evals.Load(), Distinct: r.distinct.Len() + r.distinctExtra, Counts: r.counts, Outcomes: r.outcomes, Viol: r.viol,
		Samples: r.samples, Partial: r.partial, Rule: r.rule, Cov: r.cov}
	r.mu.Unlock()
	b, err := json.Marshal(p)
	if err == nil {
		err = os.WriteFile(filepath.Join(out, "partial.json"), b, 0o644)
	}
	if err != nil {
		fmt.Fprintln(os.Stderr, "harness:", err)
		return 2
	}
	return 0
}

// runShards runs all shards and merges what they found. In the thorough tier every worker gets several shards, one
// after the other: the memory that the race detector needs is given back when a process ends.
func runShards(r *Run) {
	n, limit := r.Workers, ""
	if r.Thorough {
		n *= 64
		limit = "VERIF_LIMIT=" + (r.Deadline.Sub(r.Start) / 64).String()
	}
	slots := make(chan bool, r.Workers)
	var wg sync.WaitGroup
	type end struct {
		code int
		log  string
	}
	ends := make([]end, n)
	for i := 0; i < n; i++ {
		wg.Add(1)
		go func(i int) {
			defer wg.Done()
			slots <- true
			defer func() { <-slots }()
			dir := filepath.Join(r.OutDir, "shard"+strconv.Itoa(i))
			os.MkdirAll(dir, 0o755)
			os.Remove(filepath.Join(dir, "partial.json"))
			cmd := exec.Command(os.Args[0], "shard", r.Check.ID, dir, strconv.Itoa(i), strconv.Itoa(n))
			cmd.Env = append(os.Environ(), "GORACE="+goRace(dir), "GOMAXPROCS=2")
			if limit != "" {
				cmd.Env = append(cmd.Env, limit)
			}
			cmd.SysProcAttr = &syscall.SysProcAttr{Pdeathsig: syscall.SIGKILL}
			var buf bytes.Buffer
			lw := &limitWriter{b: &buf, max: 1 << 18}
			cmd.Stdout, cmd.Stderr = io.MultiWriter(lw), lw
			err := cmd.Run()
			ends[i].log = buf.String()
			if err != nil {
				ends[i].code = -1
				if ee, ok := err.(*exec.ExitError); ok {
					ends[i].code = ee.ExitCode()
				}
			}
		}(i)
	}
	wg.Wait()
	for i := range ends {
		dir := filepath.Join(r.OutDir, "shard"+strconv.Itoa(i))
		if ends[i].code == ExitHang {
			b, _ := os.ReadFile(filepath.Join(dir, r.Check.ID+".hang.json"))
			os.WriteFile(filepath.Join(r.OutDir, r.Check.ID+".hang.json"), b, 0o644)
			os.Exit(ExitHang)
		}
		var p partial
		b, err := os.ReadFile(filepath.Join(dir, "partial.json"))
		if err == nil {
			err = json.Unmarshal(b, &p)
		}
		if ends[i].code != 0 || err != nil {
			fmt.Fprintf(os.Stderr, "shard %d ended with code %d\n%s\n", i, ends[i].code, ends[i].log)
			if ends[i].code == 2 && strings.Contains(ends[i].log, "harness:") {
				os.Exit(2)
			}
			os.Exit(3)
		}
		if strings.TrimSpace(ends[i].log) != "" {
			fmt.Fprintf(os.Stderr, "shard %d: %s\n", i, ends[i].log)
		}
		r.evals.Add(p.Evals)
		r.distinctExtra += p.Distinct
		for k, v := range p.Counts {
			r.counts[k] += v
		}
		for k, v := range p.Outcomes {
			r.outcomes[k] += v
		}
		for k, v := range p.Cov {
			r.cov[k] = v
		}
		r.viol = append(r.viol, p.Viol...)
		for _, s := range p.Samples {
			r.Sample(s)
		}
		for _, s := range p.Partial {
			r.Partial(s)
		}
		r.rule = p.Rule
	}
	if len(r.viol) > 10 {
		r.viol = r.viol[:10]
	}
}
