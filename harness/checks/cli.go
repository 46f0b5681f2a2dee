package checks

import (
	"bytes"
	"context"
	"encoding/hex"
	"encoding/json"
	"errors"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"sort"
	"strconv"
	"strings"
	"syscall"
	"time"

	"github.com/moov-io/dukpt/pkg/server"

	"verif.local/h/calls"
	"verif.local/h/core"
)

func init() {
	core.Register(&core.Check{ID: "C20", Level: "exploration", Run: runC20,
		Replay: map[string]func(*core.Run, json.RawMessage) error{"cli": replayCli}})
}

// cliArgs maps flag names (without dash) to values; a missing name is a flag not given. Switches hold "", "true" or
// "false": given as -x, -x=true and -x=false.
type cliArgs map[string]string

var cliOps = []string{"ik", "tk", "ep", "dp", "gm", "en", "de"}

var cliFlags = map[string][]string{"ik": {"bdk", "ksn"}, "tk": {"ik", "ksn"}, "ep": {"tk", "ksn", "pin", "pan", "format"}, "dp": {"tk", "ksn", "pin", "pan", "format"},
	"gm": {"tk", "ksn", "data", "action", "type"}, "en": {"tk", "ksn", "iv", "data", "action"}, "de": {"tk", "ksn", "iv", "data", "action"}}

var cliSrv = map[string]string{"ik": "srv.IK", "tk": "srv.TK", "ep": "srv.EncPin", "dp": "srv.DecPin", "gm": "srv.Mac", "en": "srv.Enc", "de": "srv.Dec"}

func isSwitch(n string) bool {
	if n == "v" {
		return true
	}
	for _, o := range cliOps {
		if n == o {
			return true
		}
	}
	return false
}

func (a cliArgs) on(n string) bool {
	v, ok := a[n]
	b, err := strconv.ParseBool(v)
	return ok && (v == "" || err == nil && b)
}

// badSwitch tells whether a switch has a value that is no truth value.
func (a cliArgs) badSwitch() bool {
	for n, v := range a {
		if _, err := strconv.ParseBool(v); isSwitch(n) && v != "" && err != nil {
			return true
		}
	}
	return false
}

// formKey is no flag: its value tells how the command line is written. "space" gives values as separate arguments,
// "double" uses two dashes, "reverse" turns the order of the flags round.
const formKey = "/form"

// line is the command line.
func (a cliArgs) line() []string {
	var n []string
	for k := range a {
		if k != formKey {
			n = append(n, k)
		}
	}
	sort.Strings(n)
	form := a[formKey]
	if strings.Contains(form, "reverse") {
		sort.Sort(sort.Reverse(sort.StringSlice(n)))
	}
	dash := "-"
	if strings.Contains(form, "double") {
		dash = "--"
	}
	var o []string
	for _, k := range n {
		switch {
		case isSwitch(k) && a[k] == "":
			o = append(o, dash+k)
		case strings.Contains(form, "space") && !isSwitch(k):
			o = append(o, dash+k, a[k])
		default:
			o = append(o, dash+k+"="+a[k])
		}
	}
	return o
}

// cliTexts are texts that command-line programs are tempted to interpret.
var cliTexts = []string{"@x", "@", "@/etc/hostname", "-", "--", "-x", "--help", "-v", "-en.data", "%s", "%d%%n", "%", "$HOME", "${HOME}", "$(ls)", "`ls`", "~", "~/x", "file://x", "file:x", "<x", ">x", "|ls", "!x", "#x",
	"*", "?", "[a]", "{a,b}", "a=b", "=", "a,b", "a;b", "a&b", "a b", " a", "a ", "\t", "\n", "a\n", "\r\n", "\\n", "\\x41", "\\", "\"a\"", "'a'", "\"", "'", "{{.}}", "0x41", "hex:41", "base64:QUI=", "b64:QUI=", "41", "4142", "QUI=",
	"null", "true", "false", "nil", "0", "00", "-1", "1e5", "\u00e9", "\xff", "\xef\xbb\xbfa", "a\tb", "a\nb", "request", "x", "RESULT: x", "a%20b", "a+b", "&amp;", "a/b", "../x", "C:\\x"}

func (a cliArgs) and(kv ...string) cliArgs {
	c := cliArgs{}
	for k, v := range a {
		c[k] = v
	}
	for i := 0; i < len(kv); i += 2 {
		if kv[i+1] == "\x00" {
			delete(c, kv[i])
		} else {
			c[kv[i]] = kv[i+1]
		}
	}
	return c
}

// cliExp is what the documentation demands of a run.
type cliExp struct {
	version bool
	fail    bool       // message, non-zero exit status, no RESULT
	open    bool       // may be refused; if not, the result is w
	w       calls.Want // RESULT
}

func (a cliArgs) get(n, def string) string {
	if v, ok := a[n]; ok {
		return v
	}
	return def
}

func cliWant(a cliArgs) cliExp {
	if a.badSwitch() {
		return cliExp{fail: true}
	}
	if a.on("v") {
		return cliExp{version: true}
	}
	op := ""
	for _, o := range cliOps {
		if a.on(o) {
			op = o
			break
		}
	}
	if op == "" {
		return cliExp{fail: true}
	}
	alg, kt := a.get("algorithm", "des"), a.get("algorithm.key_type", "aes128")
	if alg != "des" && alg != "aes" {
		return cliExp{fail: true}
	}
	e := cliExp{}
	usesType := alg == "aes" && op != "ik" && op != "tk"
	switch kt {
	case "aes128", "aes192", "aes256":
	case "":
		if alg == "aes" {
			return cliExp{fail: true}
		}
		e.open = true
	default:
		switch strings.ToLower(kt) {
		case "aes128", "aes192", "aes256", "hmac128", "hmac192", "hmac256":
			e.open = true // other spellings and hmac types are not documented
		default:
			if usesType {
				return cliExp{fail: true}
			}
			e.open = true
		}
	}
	f := func(n, def string) string { return a.get(op+"."+n, def) }
	need := map[string][]string{"ik": {"bdk", "ksn"}, "tk": {"ik", "ksn"}, "ep": {"tk", "pin", "pan"}, "dp": {"tk", "pin", "pan"}, "gm": {"tk", "data"}, "en": {"tk", "iv", "data"}, "de": {"tk", "iv", "data"}}[op]
	if usesType {
		need = append(need, "ksn")
	} else if op == "ep" || op == "dp" {
		need = append(need, "format")
	}
	for _, n := range need {
		if f(n, "") == "" {
			return cliExp{fail: true}
		}
	}
	p := server.UnifiedParams{Algorithm: alg, AlgorithmKey: strings.ToUpper(kt), KSN: f("ksn", "")}
	switch op {
	case "ik":
		p.BKD = f("bdk", "")
	case "tk":
		p.IK = f("ik", "")
	case "ep", "dp":
		p.TK, p.PIN, p.PAN, p.Format = f("tk", ""), f("pin", ""), f("pan", ""), f("format", "")
	case "gm", "en", "de":
		p.TK, p.Action = f("tk", ""), f("action", "request")
		if p.Action != "request" && p.Action != "response" {
			return cliExp{fail: true}
		}
		switch op {
		case "gm":
			p.Plaintext, p.MacType = f("data", ""), f("type", "cmac")
			if p.MacType != "cmac" && p.MacType != "hmac" {
				if alg == "aes" {
					return cliExp{fail: true}
				}
				e.open = true
			}
			if alg == "aes" && p.MacType == "hmac" {
				p.AlgorithmKey = strings.Replace(p.AlgorithmKey, "AES", "HMAC", 1)
			}
		case "en":
			p.Plaintext, p.IV = f("data", ""), f("iv", "")
		case "de":
			p.Ciphertext, p.IV = f("data", ""), f("iv", "")
		}
	}
	e.w = calls.WantOf(&calls.Call{Fn: cliSrv[op], P: &p})
	switch e.w.Kind {
	case "error":
		return cliExp{fail: true}
	case "any":
		e.open = true
	}
	return e
}

type cliOut struct {
	code     int
	out, err string
	signal   string
	timeout  bool
}

func (o cliOut) String() string {
	s := fmt.Sprintf("exit status %d, output %q", o.code, o.out)
	if o.err != "" {
		e := o.err
		if len(e) > 600 {
			e = e[:600]
		}
		s += fmt.Sprintf(", stderr %q", e)
	}
	return s + o.signal
}

// binPath: binaries are built by run.sh from the working tree.
func binPath(name string) string { return filepath.Join(os.Getenv("VERIF_DIR"), "out", "bin", name) }

func runCli(args []string, dir string) cliOut {
	ctx, cancel := context.WithTimeout(context.Background(), 60*time.Second)
	defer cancel()
	cmd := exec.CommandContext(ctx, binPath("dukptcli"), args...)
	cmd.Env = []string{"HOME=" + dir, "PATH=/nonexistent", "GOMAXPROCS=1", "GOGC=off"}
	cmd.Dir = filepath.Join(dir, "cwd")
	cmd.SysProcAttr = &syscall.SysProcAttr{Pdeathsig: syscall.SIGKILL}
	var o, e bytes.Buffer
	cmd.Stdout, cmd.Stderr = &o, &e
	err := cmd.Run()
	r := cliOut{out: o.String(), err: e.String()}
	if err != nil {
		var x *exec.ExitError
		if !errors.As(err, &x) {
			fmt.Fprintln(os.Stderr, "harness: dukptcli:", err)
			os.Exit(2)
		}
		r.code = x.ExitCode()
		if w, ok := x.Sys().(syscall.WaitStatus); ok && w.Signaled() {
			r.signal = " killed by " + w.Signal().String()
		}
	}
	r.timeout = ctx.Err() != nil
	return r
}

func (o cliOut) hasResult() bool {
	return strings.HasPrefix(o.out, "RESULT") || strings.Contains(o.out, "\nRESULT") || strings.HasPrefix(o.err, "RESULT") || strings.Contains(o.err, "\nRESULT")
}

func judgeCli(e cliExp, o cliOut) error {
	switch {
	case o.timeout:
		return fmt.Errorf("does not end: %s", o)
	case strings.Contains(o.err, "goroutine ") && strings.Contains(o.err, "panic:") || strings.Contains(o.err, "fatal error:"):
		return fmt.Errorf("crashes: %s", o)
	case e.version:
		if o.code != 0 || o.hasResult() || strings.TrimSpace(o.out) == "" {
			return fmt.Errorf("asked for the version: %s", o)
		}
		return nil
	}
	failed := o.code != 0
	if failed && o.hasResult() {
		return fmt.Errorf("fails but prints a RESULT: %s", o)
	}
	if failed && strings.TrimSpace(o.out+o.err) == "" {
		return fmt.Errorf("fails without a message: %s", o)
	}
	if e.fail {
		if !failed {
			return fmt.Errorf("must fail: %s", o)
		}
		return nil
	}
	if failed {
		if e.open {
			return nil
		}
		return fmt.Errorf("must give %s: %s", e.w, o)
	}
	rest, ok := strings.CutPrefix(o.out, "RESULT: ")
	rest, ok2 := strings.CutSuffix(rest, "\n")
	if !ok || !ok2 {
		return fmt.Errorf("exits 0 without a RESULT line: %s", o)
	}
	if err := e.w.Check(calls.Result{S: rest, OK: true}); err != nil {
		return fmt.Errorf("%v: %s", err, o)
	}
	return nil
}

// cliDir is the directory dukptcli runs in; it has a file, the name of which is among the texts.
func cliDir(r *core.Run) {
	d := filepath.Join(r.OutDir, "cwd")
	err := os.MkdirAll(d, 0o755)
	if err == nil {
		err = os.WriteFile(filepath.Join(d, "x"), []byte("0123456789abcdef"), 0o644)
	}
	if err != nil {
		fmt.Fprintln(os.Stderr, "harness:", err)
		os.Exit(2)
	}
}

func replayCli(r *core.Run, data json.RawMessage) error {
	var a cliArgs
	if err := json.Unmarshal(data, &a); err != nil {
		return err
	}
	cliDir(r)
	return judgeCli(cliWant(a), runCli(a.line(), r.OutDir))
}

// cliBase is a valid command line of every operation, each operation's parameters different from the others'.
func cliBase(alg string, bits int) cliArgs {
	a := cliArgs{"algorithm": alg}
	k := func(seed byte) string { return fmt.Sprintf("%x", pattern(bits/8, seed)) }
	ksn := func(i int) string { return fmt.Sprintf("ffff98765432%02xe0000%x", i, i) }
	ct := "1a2b3c4d5e6f7081"
	if alg == "aes" {
		a["algorithm.key_type"] = fmt.Sprintf("aes%d", bits)
		ksn = func(i int) string { return fmt.Sprintf("12345678901234%02x%08x", i, i) }
		ct += ct
	}
	a = a.and("ik.bdk", k(1), "ik.ksn", ksn(1), "tk.ik", k(2), "tk.ksn", ksn(2),
		"ep.tk", k(3), "ep.ksn", ksn(3), "ep.pin", "1234", "ep.pan", "4012345678909", "ep.format", "ISO-0",
		"dp.tk", k(4), "dp.ksn", ksn(4), "dp.pin", "1b9c1845eb993a7a", "dp.pan", "4012345678909876", "dp.format", "ISO-2",
		"gm.tk", k(5), "gm.ksn", ksn(5), "gm.data", "4012345678909D987", "gm.action", "response", "gm.type", "hmac",
		"en.tk", k(6), "en.ksn", ksn(6), "en.iv", "0102030405060708", "en.data", "4012345678909D98", "en.action", "request",
		"de.tk", k(7), "de.ksn", ksn(7), "de.iv", "1112131415161718", "de.data", ct, "de.action", "response")
	// the PIN to decrypt is one that was encrypted
	p := server.UnifiedParams{Algorithm: alg, AlgorithmKey: strings.ToUpper(a["algorithm.key_type"]), TK: a["dp.tk"], KSN: a["dp.ksn"], PIN: "98765", PAN: a["dp.pan"], Format: a["dp.format"]}
	if r := calls.Exec(&calls.Call{Fn: "srv.EncPin", P: &p}); r.OK {
		a["dp.pin"] = r.S
	}
	return a
}

// only keeps the flags of one operation.
func (a cliArgs) only(op string) cliArgs {
	c := cliArgs{op: ""}
	for k, v := range a {
		if strings.HasPrefix(k, op+".") || strings.HasPrefix(k, "algorithm") {
			c[k] = v
		}
	}
	return c
}

func runC20(r *core.Run) {
	r.Rule("a case is one execution of the dukptcli binary; complete products of the execution flags (absent, set, =true, =false), of presence, absence and emptiness of each operation's flags, " +
		"and of option values, and all malformed-value neighbourhoods per flag; distinct_nontrivial counts distinct command lines")
	if _, err := os.Stat(binPath("dukptcli")); err != nil {
		fmt.Fprintln(os.Stderr, "harness: no binary:", err)
		os.Exit(2)
	}
	cliDir(r)
	ts := tallies(r)
	n := 0
	core.Feed(r, func(emit0 func(cliArgs) bool) {
		emit := func(a cliArgs) bool {
			if !r.Distinct(core.Hash([]byte(strings.Join(a.line(), "\x00")))) {
				return true
			}
			if n%3001 == 7 {
				r.Sample("dukptcli " + strings.Join(a.line(), " "))
			}
			n++
			return emit0(a)
		}
		genCli(r, emit)
	}, func(w int, a cliArgs) {
		r.Busy(w, "cli", "dukptcli "+strings.Join(a.line(), " "), a)
		o := runCli(a.line(), r.OutDir)
		r.Eval(1)
		e := cliWant(a)
		ts[w].add(map[bool]string{true: "expected failure", false: "expected result"}[e.fail])
		if err := judgeCli(e, o); err != nil {
			r.Violate("cli", "cli:"+strings.Join(a.line(), " "), "dukptcli "+strings.Join(a.line(), " ")+": "+err.Error(), a)
		}
	})
	for i := range ts {
		r.Outcomes(ts[i].m)
	}
}

func genCli(r *core.Run, emit func(cliArgs) bool) {
	bases := []cliArgs{cliBase("des", 128), cliBase("aes", 128), cliBase("aes", 192), cliBase("aes", 256)}
	// execution flags: absent, -x, -x=true, -x=false
	states := []string{"\x00", "", "false"}
	for bi, b := range bases {
		if bi > 1 && !r.Thorough {
			break
		}
		total := 1
		for range cliOps {
			total *= len(states)
		}
		for i := 0; i < total; i++ {
			a := b.and()
			x := i
			for _, o := range cliOps {
				a = a.and(o, states[x%len(states)])
				x /= len(states)
			}
			emit(a)
			if i%37 == 0 {
				emit(a.and("v", ""))
				emit(a.and("v", "false"))
			}
		}
	}
	for _, b := range bases {
		for _, op := range cliOps {
			emit(b.and(op, "true"))
			emit(b.and(op, "maybe")) // not a switch value
			emit(b.and(op, "1"))
			emit(b.only(op))
			// presence, absence, emptiness and malformed values of every flag
			fl := cliFlags[op]
			opts := []string{"\x00", "", "=", "zz"}
			total := 1
			for range fl {
				total *= len(opts)
			}
			for i := 0; i < total; i++ {
				a := b.only(op)
				x := i
				for _, f := range fl {
					switch v := opts[x%len(opts)]; v {
					case "=":
					default:
						a = a.and(op+"."+f, v)
					}
					x /= len(opts)
				}
				emit(a)
			}
			// the flags of other operations, absent, malformed or empty, must not matter
			for _, other := range cliOps {
				if other == op {
					continue
				}
				for _, f := range cliFlags[other] {
					for _, v := range []string{"", "zz", "0", "ISO-9", "response"} {
						emit(b.and(op, "", other+"."+f, v))
						emit(b.only(op).and(other+"."+f, v))
						emit(b.only(op).and(other+"."+f, v, other, ""))
					}
				}
			}
			// how the command line is written
			for _, f := range []string{"space", "double", "reverse", "space double", "space reverse", "double reverse", "space double reverse"} {
				emit(b.and(op, "", formKey, f))
				emit(b.only(op).and(formKey, f))
				emit(b.only(op).and(op, "true", formKey, f))
			}
			// values that must be taken literally
			for _, f := range fl {
				for _, v := range cliTexts {
					if op == "de" && f == "data" || op == "dp" && f == "pin" || f == "tk" || f == "ik" || f == "bdk" || f == "ksn" || f == "iv" {
						emit(b.only(op).and(op+"."+f, fmt.Sprintf("%x", v)))
					}
					for _, form := range []string{"", "space", "space double reverse"} {
						emit(b.only(op).and(op+"."+f, v, formKey, form))
					}
				}
			}
			// values that are constants of the code
			if b["algorithm"] == "des" || b["algorithm.key_type"] == "aes128" || r.Thorough {
				for _, v := range core.Lit().Strings {
					h := len(v)%2 == 0 && len(v) >= 16 && strings.Trim(strings.ToLower(v), "0123456789abcdef") == ""
					if len(v) > 24 && !h || strings.Contains(v, "\x00") {
						continue
					}
					for _, f := range fl {
						emit(b.only(op).and(op+"."+f, v))
						if r.Thorough {
							emit(b.only(op).and(op+"."+f, fmt.Sprintf("%x", v)))
							emit(b.only(op).and(op+"."+f, b[op+"."+f]+v))
							emit(b.only(op).and(op+"."+f, v+b[op+"."+f]))
						}
					}
				}
				for _, f := range fl {
					if v := b[op+"."+f]; f == "bdk" || f == "ik" || f == "tk" || f == "ksn" || f == "iv" {
						if raw, err := hex.DecodeString(v); err == nil {
							xs := core.Lit().Exact(len(raw))
							if r.Thorough {
								xs = append(xs, core.Lit().Bytes(raw)...)
							}
							for _, x := range xs {
								emit(b.only(op).and(op+"."+f, hexs(x)))
							}
						}
					}
				}
			}
			// algorithm and key type
			for _, alg := range []string{"\x00", "", "des", "aes", "DES", "Aes", "tdes", "3des", "aes128", "none", " des", "desx"} {
				for _, kt := range []string{"\x00", "", "aes128", "aes192", "aes256", "AES128", "Aes256", "hmac128", "hmac192", "HMAC256", "aes", "aes512", "128", "tdes2", "des", " aes128", "aes1280"} {
					emit(b.only(op).and("algorithm", alg, "algorithm.key_type", kt))
					if op == "gm" {
						for _, ty := range []string{"\x00", "", "cmac", "hmac", "CMAC", "Hmac", "mac", "cmachmac", " cmac"} {
							for _, act := range []string{"\x00", "", "request", "response"} {
								emit(b.only(op).and("algorithm", alg, "algorithm.key_type", kt, "gm.type", ty, "gm.action", act))
							}
						}
					}
				}
			}
			if op == "gm" || op == "en" || op == "de" {
				for _, act := range []string{"\x00", "", "request", "response", "Request", "RESPONSE", "req", "requestresponse", " request", "none", "0", "re\u017fponse", "reque\u017ft"} {
					for _, d := range oddTexts {
						if strings.Contains(d, "\x00") || len(d) > 4000 {
							continue
						}
						if op == "de" {
							d = fmt.Sprintf("%x", d)
						}
						emit(b.only(op).and(op+".action", act, op+".data", d))
					}
				}
			}
			if op == "gm" || op == "en" || op == "de" {
				for k := 5; k <= 16; k++ {
					for _, n := range []int{1<<k - 1, 1 << k, 1<<k + 1, 3 << k / 2} {
						d := strings.Repeat("4012345678909D98", n/16+1)[:n]
						if op == "de" {
							d = hexs([]byte(d[:n/32*16+n%2]))
						}
						emit(b.only(op).and(op+".data", d))
						emit(b.only(op).and(op+".data", d, formKey, "space double"))
					}
				}
			}
			if op == "ep" || op == "dp" {
				for _, f := range []string{"ISO-0", "ISO-1", "ISO-2", "ISO-3", "ISO-4", "ANSI", "ECI1", "ECI2", "ECI3", "ECI4", "VISA1", "VISA2", "VISA3", "VISA4", "iso-0", "visa3", "Ansi", "ISO0", "ISO-9", "", "\x00"} {
					for np := 3; np <= 13; np++ {
						for _, pan := range []string{"4012345678909", "401234567890987654", "401234567890", "4", "abc"} {
							a := b.only(op).and(op+".format", f, op+".pan", pan)
							pin := "1234567890123"[:np]
							if op == "dp" {
								p := server.UnifiedParams{Algorithm: a["algorithm"], AlgorithmKey: strings.ToUpper(a["algorithm.key_type"]), TK: a["dp.tk"], KSN: a["dp.ksn"], PIN: pin, PAN: pan, Format: f}
								if e := calls.Exec(&calls.Call{Fn: "srv.EncPin", P: &p}); e.OK {
									pin = e.S
								} else {
									pin = "1a2b3c4d5e6f7081"
								}
							}
							emit(a.and(op+".pin", pin))
						}
					}
				}
			}
			// hex flags: every length, upper case, odd length, each position spoilt
			for _, f := range fl {
				full := b[op+"."+f]
				if f == "pan" || f == "format" || f == "action" || f == "type" || f == "data" && op != "de" || f == "pin" && op != "dp" {
					continue
				}
				long := full + full
				for i := 1; i <= len(long); i++ {
					emit(b.only(op).and(op+"."+f, long[:i]))
				}
				for i := range full {
					for _, c := range []string{"g", " ", "-", "\n", "é"} {
						emit(b.only(op).and(op+"."+f, full[:i]+c+full[i+1:]))
					}
				}
				emit(b.only(op).and(op+"."+f, strings.ToUpper(full)))
				emit(b.only(op).and(op+"."+f, "0x"+full))
				emit(b.only(op).and(op+"."+f, " "+full))
				emit(b.only(op).and(op+"."+f, full+"\n"))
			}
		}
	}
}
