package racechecks

import (
	"bytes"
	"encoding/json"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"strings"

	"verif.local/h/calls"
	"verif.local/h/core"
	"verif.local/h/sched"
)

func init() {
	core.Register(&core.Check{ID: "C18", Level: "exploration", Race: true, Shard: runC18,
		Assume: []string{"a run in which the race detector sees no unordered conflicting accesses is equivalent to every other interleaving with the same order of scheduling points (partial-order argument); accesses made by the assembly of the Go standard library are not seen by the race detector, only their effects on results are"},
		Replay: map[string]func(*core.Run, json.RawMessage) error{"schedule": replaySchedule(libBuildFresh), "cold": replayCold}})
	core.Sub["cold"] = subCold
	core.Sub["alone"] = subAlone
}

const libSeed = 7

// libProgram runs calls of the shared alphabet on the same slices concurrently.
type libProgram struct {
	Threads [][]int
	Bound   int
	Turns   bool `json:",omitempty"`
}

type libEnv struct {
	alpha []calls.Call
	bufs  []*calls.Bufs
	alone []calls.Result
	n     int     // calls of variant 0
	long  []int   // calls on long texts
	like  [][]int // the variants of every call, itself first
}

func newLibEnv() *libEnv {
	e := &libEnv{}
	for v := 0; v < calls.Variants; v++ { // every variant of the contents has its own memory
		b := calls.NewBufs(libSeed)
		e.bufs = append(e.bufs, b)
		for i, c := range b.Alphabet(v) {
			if v == 0 {
				e.like = append(e.like, nil)
			} else if c.String() == e.alpha[i].String() {
				continue
			}
			e.like[i] = append(e.like[i], len(e.alpha))
			e.alpha = append(e.alpha, c)
		}
		if v == 0 {
			e.n = len(e.alpha)
		}
	}
	b := e.bufs[0]
	for _, n := range append([]int{1 << 10, 1 << 13}, core.Lit().Sizes(1<<16)...) {
		if n < 100 {
			continue
		}
		t := strings.Repeat("0123456789abcdef", n/16+1)[:n]
		for _, c := range []calls.Call{{Fn: "des.Mac", Key: b.DesKey, Text: t, Act: "request"}, {Fn: "des.Enc", Key: b.DesKey, IV: b.IV[:8], Text: t, Act: "request"}, {Fn: "des.Dec", Key: b.DesKey, IV: b.IV[:8], Data: []byte(t), Act: "request"},
			{Fn: "aes.Cmac", Key: b.AesKey[:16], Ksn: b.AesKsn, Text: t, Fmt: "AES128", Act: "request"}, {Fn: "aes.Hmac", Key: b.AesKey[:16], Ksn: b.AesKsn, Text: t, Fmt: "HMAC128", Act: "request"},
			{Fn: "aes.Enc", Key: b.AesKey[:16], Ksn: b.AesKsn, IV: b.IV, Text: t, Fmt: "AES128", Act: "request"}, {Fn: "aes.Dec", Key: b.AesKey[:16], Ksn: b.AesKsn, IV: b.IV, Data: []byte(t), Fmt: "AES128", Act: "request"},
			{Fn: "pkg.HexEnc", Data: []byte(t)}, {Fn: "pkg.HexDec", Text: t}} {
			e.long = append(e.long, len(e.alpha))
			e.alpha = append(e.alpha, c)
		}
	}
	return e
}

func same(a, b *calls.Result) bool {
	return bytes.Equal(a.B, b.B) && a.S == b.S && a.N == b.N && a.OK == b.OK && (a.Panic != "") == (b.Panic != "")
}

func (e *libEnv) fillAlone() {
	for i := range e.alpha {
		c := e.alpha[i]
		e.alone = append(e.alone, calls.Exec(&c))
	}
}

func (e *libEnv) build(p libProgram) *program {
	var n []string
	for _, t := range p.Threads {
		s := ""
		for k, i := range t {
			if k > 0 {
				s += "; "
			}
			s += fmt.Sprintf("%s#%d", e.alpha[i].Fn, i)
		}
		n = append(n, s)
	}
	name := strings.Join(n, " || ")
	if p.Turns {
		name = "taking turns " + name
	}
	pr := &program{name: name, data: p, bound: p.Bound - 1, limit: 200000, turns: p.Turns}
	pr.fresh = func() ([]func(*sched.Task), func() (string, []byte)) {
		res := make([][]calls.Result, len(p.Threads))
		var bodies []func(*sched.Task)
		for i := range p.Threads {
			bodies = append(bodies, func(t *sched.Task) {
				var rs []calls.Result
				for k, x := range p.Threads[i] {
					if k > 0 {
						t.Point()
					}
					c := e.alpha[x]
					rs = append(rs, calls.Exec(&c))
				}
				res[i] = rs
			})
		}
		return bodies, func() (string, []byte) {
			var hist []byte
			for i := range res {
				for k := range res[i] {
					x := p.Threads[i][k]
					if !same(&res[i][k], &e.alone[x]) {
						return fmt.Sprintf("wrong result: %s answered %s, alone it answers %s", e.alpha[x], res[i][k], e.alone[x]), nil
					}
					hist = append(append(hist, res[i][k].B...), res[i][k].S...)
				}
			}
			for _, b := range e.bufs {
				if off, bad := b.Changed(); bad {
					return "changed arguments: a call wrote into the shared " + b.Region(off), nil
				}
			}
			// what the overlap left behind must not mislead later calls
			for i := range p.Threads {
				for _, x := range p.Threads[i] {
					c := e.alpha[x]
					if r := calls.Exec(&c); !same(&r, &e.alone[x]) {
						return fmt.Sprintf("wrong result: afterwards %s answers %s, alone it answers %s", c, r, e.alone[x]), nil
					}
				}
			}
			return "", hist
		}
	}
	return pr
}

func libBuildFresh(p libProgram) *program {
	sched.AfterRelease = true
	e := newLibEnv()
	e.aloneOutside()
	return e.build(p)
}

// subAlone answers the whole alphabet alone, one process: vmcrace alone.
func subAlone([]string) int {
	e := newLibEnv()
	e.fillAlone()
	return emit(e.alone)
}

type wireRes struct {
	B, S []byte
	N    uint64
	OK   bool
	P    string
}

func emit(rs []calls.Result) int {
	var w []wireRes
	for _, r := range rs {
		w = append(w, wireRes{r.B, []byte(r.S), r.N, r.OK, r.Panic})
	}
	b, err := json.Marshal(w)
	if err != nil {
		return 2
	}
	os.Stdout.Write(b)
	return 0
}

func parse(out []byte) (rs []calls.Result, err error) {
	var w []wireRes
	if err = json.Unmarshal(out, &w); err != nil {
		return
	}
	for _, r := range w {
		rs = append(rs, calls.Result{B: r.B, S: string(r.S), N: r.N, OK: r.OK, Panic: r.P})
	}
	return
}

// aloneOutside gets the answers of the calls run alone from another process, so that nothing is initialised in this one.
func (e *libEnv) aloneOutside() {
	out, err := exec.Command(os.Args[0], "alone").Output()
	if err == nil {
		e.alone, err = parse(out)
	}
	if err != nil {
		fmt.Fprintln(os.Stderr, "harness: alone:", err)
		os.Exit(2)
	}
}

// coldCase is a pair of calls that are the first ones in the life of a process.
type coldCase struct {
	A, B   int
	Choice []int
}

// subCold runs a pair of calls concurrently in a fresh process: vmcrace cold <json>.
func subCold(args []string) int {
	var c coldCase
	if json.Unmarshal([]byte(args[0]), &c) != nil {
		return 2
	}
	e := newLibEnv()
	res := make([]calls.Result, 2)
	var bodies []func(*sched.Task)
	for i, x := range []int{c.A, c.B} {
		bodies = append(bodies, func(*sched.Task) {
			call := e.alpha[x]
			res[i] = calls.Exec(&call)
		})
	}
	m := mark()
	r := sched.Run(bodies, c.Choice)
	out := struct {
		Races    string
		Deadlock bool
		Res      []wireRes
	}{Races: m.races(), Deadlock: r.Deadlock}
	if !r.Deadlock {
		for _, r := range res {
			out.Res = append(out.Res, wireRes{r.B, []byte(r.S), r.N, r.OK, r.Panic})
		}
	}
	b, err := json.Marshal(out)
	if err != nil {
		return 2
	}
	os.Stdout.Write(b)
	return 0
}

func (e *libEnv) cold(c coldCase, dir string) (string, error) {
	arg, _ := json.Marshal(c)
	cmd := exec.Command(os.Args[0], "cold", string(arg))
	log := filepath.Join(dir, "cold")
	cmd.Env = append(os.Environ(), "GORACE=halt_on_error=0 exitcode=0 atexit_sleep_ms=0 log_path="+log)
	out, err := cmd.Output()
	if cmd.Process != nil {
		defer os.Remove(fmt.Sprintf("%s.%d", log, cmd.Process.Pid))
	}
	if err != nil {
		return "", err
	}
	var o struct {
		Races    string
		Deadlock bool
		Res      []wireRes
	}
	if err := json.Unmarshal(out, &o); err != nil {
		return "", err
	}
	if o.Deadlock {
		return "deadlock", nil
	}
	if o.Races != "" {
		return "data race:\n" + o.Races, nil
	}
	for i, x := range []int{c.A, c.B} {
		w := o.Res[i]
		r := calls.Result{B: w.B, S: string(w.S), N: w.N, OK: w.OK, Panic: w.P}
		if !same(&r, &e.alone[x]) {
			return fmt.Sprintf("wrong result: %s answered %s, alone it answers %s", e.alpha[x], r, e.alone[x]), nil
		}
	}
	return "", nil
}

func replayCold(r *core.Run, data json.RawMessage) error {
	var c coldCase
	if err := json.Unmarshal(data, &c); err != nil {
		return err
	}
	e := newLibEnv()
	e.aloneOutside()
	what, err := e.cold(c, r.OutDir)
	if err != nil {
		return nil
	}
	if what != "" {
		return fmt.Errorf("%s", what)
	}
	return nil
}

func runC18(r *core.Run) {
	r.Rule("a case is one schedule of one concurrent program of library calls on shared slices, or one pair of calls that are the first ones of a fresh process; " +
		"the calls contain no synchronisation today, so that their interleavings differ only at call boundaries and the race detector decides whether a finer interleaving could matter; " +
		"synchronisation that is added becomes scheduling points and is enumerated; distinct_nontrivial counts distinct programs with distinct answers, and cold pairs")
	sched.AfterRelease = true
	e := newLibEnv()
	e.aloneOutside()
	core1 := calls.NCore
	// cold: every function against every function, both orders
	k := 0
	for a := 0; a < core1; a++ {
		for b := 0; b < core1; b++ {
			k++
			if k%r.ShardN != r.ShardI || r.Stopped() {
				continue
			}
			c := coldCase{A: a, B: b}
			r.Busy(0, "cold", "pair of first calls", c)
			what, err := e.cold(c, r.OutDir)
			r.Eval(1)
			r.Count("cold_pairs", 1)
			r.DistinctN(1)
			if err != nil {
				fmt.Fprintln(os.Stderr, "harness: cold pair:", err)
				os.Exit(2)
			}
			if what != "" {
				r.Violate("cold", fmt.Sprintf("cold:%s||%s", e.alpha[a].Fn, e.alpha[b].Fn), fmt.Sprintf("first calls of a process, %s || %s: %s", e.alpha[a], e.alpha[b], what), c)
			}
		}
	}
	r.Idle(0)
	n := e.n
	shardRun(r, func(emit func(*program)) {
		two := func(x ...[]int) { emit(e.build(libProgram{Threads: x})) }
		multisets(n, 2, func(c []int) { two([]int{c[0]}, []int{c[1]}) })
		multisets(core1, 3, func(c []int) {
			two([]int{c[0]}, []int{c[1]}, []int{c[2]})
		})
		// many threads, all of them begun before the first ends
		for a := 0; a < n; a++ {
			emit(e.build(libProgram{Threads: [][]int{{a}, {a}, {a}, {a}, {a}, {a}}, Bound: 2, Turns: true}))
			for b := 0; b < n; b++ {
				if a != b && (a < core1 || b < core1) {
					emit(e.build(libProgram{Threads: [][]int{{a}, {b}, {a}, {b}, {a}, {b}}, Bound: 1, Turns: true}))
				}
			}
		}
		for _, vs := range e.like[:n] {
			if len(vs) > 1 {
				th := make([][]int, sched.MaxTasks)
				for i := range th {
					th[i] = []int{vs[i%len(vs)]}
				}
				emit(e.build(libProgram{Threads: th, Bound: 2, Turns: true}))
			}
		}
		// two calls per thread: the second may meet what the first left behind
		for a := 0; a < core1; a++ {
			for b := a; b < core1; b++ {
				two([]int{a, b}, []int{b, a})
				two([]int{a, a}, []int{b, b})
			}
		}
		// the same call with other contents; and with other contents of another call
		for _, vs := range e.like[:n] {
			multisets(len(vs), 2, func(c []int) {
				if a, b := vs[c[0]], vs[c[1]]; a != b {
					two([]int{a}, []int{b})
					two([]int{a, b}, []int{b, a})
					two([]int{a, a}, []int{b, b})
					two([]int{a, b}, []int{b})
				}
			})
		}
		for a := 0; a < core1; a++ {
			for b := 0; b < core1; b++ {
				for _, v := range e.like[b][1:] {
					if a != b {
						two([]int{a, v}, []int{v, a})
						two([]int{a, a}, []int{v})
					}
				}
			}
			for i, v := range e.like[a] {
				for _, w := range e.like[a][:i] {
					two([]int{a}, []int{v}, []int{w})
				}
			}
		}
		for _, a := range e.long {
			if len(e.alpha[a].Text)+len(e.alpha[a].Data) > 1<<13 && !r.Thorough {
				continue
			}
			for _, b := range append([]int{0}, e.long...) {
				if b <= a && (b == 0 || e.alpha[b].Fn == e.alpha[a].Fn || (a-b)*(a-b) < 81) {
					two([]int{a}, []int{b})
				}
			}
			two([]int{a})
			two([]int{a, a})
		}
		if r.Thorough {
			multisets(n, 3, func(c []int) { emit(e.build(libProgram{Threads: [][]int{{c[0]}, {c[1]}, {c[2]}}, Bound: 2})) })
		}
	})
}
