package racechecks

import (
	"encoding/json"
	"fmt"
	"net/http"
	"strings"

	"github.com/moov-io/dukpt/pkg/server"

	"verif.local/h/core"
	"verif.local/h/model"
	"verif.local/h/rest"
	"verif.local/h/sched"
)

func init() {
	core.Register(&core.Check{ID: "C23", Level: "exploration", Race: true, Shard: runC23,
		Assume: []string{"the only scheduling points that matter are the operations of package sync and sync/atomic of the code under test and the call boundaries: between two such points the code is free of data races (the race detector watches every schedule), so finer interleavings are equivalent"},
		Replay: map[string]func(*core.Run, json.RawMessage) error{"schedule": replaySchedule(svcBuild)}})
}

// svcProgram is a sequential setup followed by concurrent threads on one service.
type svcProgram struct {
	HTTP    bool
	Setup   []model.Op
	Threads [][]model.Op
	Bound   int // preemption bound + 1; 0: none
	Limit   int
	Turns   bool `json:",omitempty"` // the threads take turns, Bound limits the departures from that
}

func (p svcProgram) String() string {
	var b strings.Builder
	if p.Turns {
		b.WriteString("taking turns ")
	}
	if p.HTTP {
		b.WriteString("http ")
	}
	b.WriteString("[")
	for i, o := range p.Setup {
		if i > 0 {
			b.WriteString("; ")
		}
		b.WriteString(o.String())
	}
	b.WriteString("]")
	for _, t := range p.Threads {
		b.WriteString(" || ")
		for i, o := range t {
			if i > 0 {
				b.WriteString("; ")
			}
			b.WriteString(o.String())
		}
	}
	return b.String()
}

var spec = model.NewSpec()

func svcBuild(p svcProgram) *program {
	pr := &program{name: p.String(), data: p, bound: p.Bound - 1, limit: p.Limit, turns: p.Turns}
	start := model.NewState()
	for _, o := range p.Setup {
		spec.Step(start, o)
	}
	pr.fresh = func() ([]func(*sched.Task), func() (string, []byte)) {
		svc := server.NewService(server.NewRepositoryInMemory(nil))
		var h http.Handler
		if p.HTTP {
			h = server.MakeHTTPHandler(svc)
		}
		for _, o := range p.Setup {
			model.Exec(svc, o)
		}
		events := make([][]model.Event, len(p.Threads))
		bodies := make([]func(*sched.Task), len(p.Threads))
		for i := range p.Threads {
			bodies[i] = func(t *sched.Task) {
				evs := make([]model.Event, 0, len(p.Threads[i]))
				for k, o := range p.Threads[i] {
					if k > 0 {
						t.Point()
					}
					e := model.Event{Thread: i, Op: o, Call: t.Tick()}
					if p.HTTP {
						e.Res, _ = rest.Exec(h, o)
					} else {
						e.Res = model.Exec(svc, o)
					}
					e.Ret = t.Tick()
					evs = append(evs, e)
				}
				events[i] = evs
			}
		}
		return bodies, func() (string, []byte) {
			var all []model.Event
			for _, e := range events {
				all = append(all, e...)
			}
			final := model.List(svc)
			var hist []byte
			for _, e := range all {
				hist = append(hist, byte(e.Thread), byte(e.Call), byte(e.Ret))
				hist = append(append(hist, e.Res.Kind...), e.Res.S...)
			}
			for _, f := range final {
				hist = append(append(hist, '|'), f...)
			}
			if spec.Linearizable(start, all, final) {
				return "", hist
			}
			var b strings.Builder
			for _, e := range all {
				fmt.Fprintf(&b, "T%d[%d,%d] %s -> %s; ", e.Thread, e.Call, e.Ret, e.Op, e.Res)
			}
			return fmt.Sprintf("not linearizable: %sfinal %v", b.String(), final), hist
		}
	}
	return pr
}

// machines of the enumerated programs
var (
	desA = server.BaseKey{Algorithm: "des", BaseDerivativeKey: "0123456789ABCDEFFEDCBA9876543210", KeySerialNumber: "FFFF9876543210E00001"}
	desB = server.BaseKey{Algorithm: "des", BaseDerivativeKey: "0123456789ABCDEFFEDCBA9876543210", KeySerialNumber: "FFFF9876543211E00003"}
	aesC = server.BaseKey{Algorithm: "aes", AlgorithmKey: "AES128", BaseDerivativeKey: "FEDCBA9876543210F1F1F1F1F1F1F1F1", KeySerialNumber: "123456789012345600000001"}
	aesZ = server.BaseKey{Algorithm: "aes", AlgorithmKey: "AES128", BaseDerivativeKey: "FEDCBA9876543210F1F1F1F1F1F1F1F1", KeySerialNumber: "1234567890123457FFFE8000"}
	desZ = server.BaseKey{Algorithm: "des", BaseDerivativeKey: "0123456789ABCDEFFEDCBA9876543210", KeySerialNumber: "FFFF9876543213FFF000"}
	// same initial key as desA, other counter: the second creation must fail
	desA2 = server.BaseKey{Algorithm: "des", BaseDerivativeKey: "0123456789ABCDEFFEDCBA9876543210", KeySerialNumber: "FFFF9876543210E00005"}
)

func ikOf(b server.BaseKey) string {
	s := model.NewState()
	e := spec.Step(s, model.Op{Fn: "create", Base: b})
	if e.Kind != "record" {
		panic("harness: bad base key")
	}
	for ik := range s.Ms {
		return ik
	}
	return ""
}

func create(b server.BaseKey) model.Op { return model.Op{Fn: "create", Base: b} }

// alphabet of operations on one machine; the first n are the core ones
func opsOn(b server.BaseKey) []model.Op {
	ik := ikOf(b)
	o := []model.Op{
		{Fn: "next", IK: ik},
		{Fn: "get", IK: ik},
		{Fn: "encdata", IK: ik, A: "4012345678909D98", B: "request", C: ""},
		create(b),
		{Fn: "delete", IK: ik},
		{Fn: "list"},
		{Fn: "encpin", IK: ik, A: "1234", B: "4012345678909", C: "ISO-0"},
		{Fn: "mac", IK: ik, A: "4012345678909D98", B: "response", C: "cmac"},
		{Fn: "decdata", IK: ik, A: "00112233445566778899aabbccddeeff", B: "request", C: ""},
		{Fn: "decpin", IK: ik, A: "00112233445566778899aabbccddeeff"[:map[string]int{"des": 16, "aes": 32}[b.Algorithm]], B: "4012345678909", C: "ISO-0"},
	}
	return o
}

// multisets of size k over n items
func multisets(n, k int, f func([]int)) {
	c := make([]int, k)
	var rec func(i, from int)
	rec = func(i, from int) {
		if i == k {
			f(append([]int{}, c...))
			return
		}
		for v := from; v < n; v++ {
			c[i] = v
			rec(i+1, v)
		}
	}
	rec(0, 0)
}

func sequences(alpha []model.Op, k int) [][]model.Op {
	out := [][]model.Op{nil}
	for i := 0; i < k; i++ {
		var n [][]model.Op
		for _, s := range out {
			for _, o := range alpha {
				n = append(n, append(append([]model.Op{}, s...), o))
			}
		}
		out = n
	}
	return out
}

func runC23(r *core.Run) {
	r.Rule(schedRule)
	lim := 20000
	if r.Thorough {
		lim = 2000000
	}
	shardRun(r, func(emit func(*program)) {
		add := func(setup []model.Op, bound int, threads ...[]model.Op) {
			emit(svcBuild(svcProgram{Setup: setup, Threads: threads, Bound: bound, Limit: lim}))
		}
		combos := func(setup []model.Op, alpha [][]model.Op, k, bound int) {
			multisets(len(alpha), k, func(c []int) {
				th := make([][]model.Op, k)
				for i, x := range c {
					th[i] = alpha[x]
				}
				add(setup, bound, th...)
			})
		}
		singles := func(o []model.Op) [][]model.Op { return sequences(o, 1) }
		a, c := opsOn(desA), opsOn(aesC)
		b := opsOn(desB)
		z, zz := opsOn(aesZ), opsOn(desZ)
		// 1 op per thread, 2 threads, all schedules
		for _, setup := range [][]model.Op{nil, {create(desA)}, {create(desA), create(desB)}, {create(desA2)}} {
			combos(setup, singles(append(append([]model.Op{create(desA2)}, a...), b[0], b[3], b[4])), 2, 0)
		}
		for _, setup := range [][]model.Op{nil, {create(aesC)}, {create(aesC), create(desA)}} {
			combos(setup, singles(append(append([]model.Op{}, c...), a[0], a[3])), 2, 0)
		}
		combos([]model.Op{create(aesZ)}, singles(z), 2, 0)
		combos([]model.Op{create(desZ)}, singles(zz), 2, 0)
		// 3 threads with 1 op, all schedules
		combos([]model.Op{create(desA), create(desB)}, singles(append(append([]model.Op{}, a[:6]...), b[0])), 3, 0)
		combos([]model.Op{create(aesC)}, singles(c[:5]), 3, 0)
		combos(nil, singles([]model.Op{a[3], create(desA2), a[0], a[4], a[1]}), 3, 0)
		combos([]model.Op{create(aesZ)}, singles(z[:3]), 3, 0)
		// 2 threads with 2 ops
		combos([]model.Op{create(desA)}, sequences([]model.Op{a[0], a[1], a[2], a[3], a[4]}, 2), 2, 3)
		combos([]model.Op{create(aesC), create(desA)}, sequences([]model.Op{c[0], c[1], a[0], c[2]}, 2), 2, 3)
		// longer next-KSN runs
		nx := func(o model.Op, n int) []model.Op {
			var s []model.Op
			for i := 0; i < n; i++ {
				s = append(s, o)
			}
			return s
		}
		for _, m := range []struct {
			b server.BaseKey
			o []model.Op
		}{{desA, a}, {aesC, c}, {aesZ, z}, {desZ, zz}} {
			s := []model.Op{create(m.b)}
			add(s, 0, nx(m.o[0], 2), nx(m.o[0], 2))
			add(s, 3, nx(m.o[0], 3), nx(m.o[0], 3))
			add(s, 3, nx(m.o[0], 2), nx(m.o[0], 2), nx(m.o[0], 2))
			add(s, 3, nx(m.o[0], 1), nx(m.o[0], 1), nx(m.o[0], 1), nx(m.o[0], 1))
			add(s, 3, nx(m.o[0], 2), []model.Op{m.o[1], m.o[2]}, []model.Op{m.o[7]})
			add(s, 3, nx(m.o[0], 2), []model.Op{m.o[4], m.o[3]}, []model.Op{m.o[1]})
		}
		// many threads, all of them begun before the first ends
		for _, m := range []struct {
			setup []model.Op
			al    []model.Op
		}{{[]model.Op{create(desA)}, []model.Op{a[0], a[1], a[2], a[3], a[4], b[3]}}, {[]model.Op{create(aesC), create(desA)}, []model.Op{c[0], c[1], a[0], a[5], c[7]}}} {
			for k := 4; k <= pickN(r, 6, 5); k++ {
				multisets(len(m.al), k, func(ix []int) {
					var th [][]model.Op
					for _, x := range ix {
						th = append(th, []model.Op{m.al[x]})
					}
					emit(svcBuild(svcProgram{Setup: m.setup, Threads: th, Bound: 2, Limit: lim, Turns: true}))
				})
			}
		}
		// the same through the HTTP handler
		hop := func(o []model.Op) (x []model.Op) {
			for _, y := range o {
				if y.Fn != "delete" {
					x = append(x, y)
				}
			}
			return
		}
		for _, s := range [][]model.Op{{create(desA)}, {create(aesC), create(desA)}, nil} {
			al := singles(hop(a))
			if len(s) == 2 {
				al = singles(append(hop(c), a[0]))
			}
			multisets(len(al), 2, func(ix []int) {
				emit(svcBuild(svcProgram{HTTP: true, Setup: s, Threads: [][]model.Op{al[ix[0]], al[ix[1]]}, Limit: lim}))
			})
		}
		// calls that fail beside calls that succeed, on the service and through the handler
		failing := []model.Op{{Fn: "encpin", IK: ikOf(desA), A: "12", B: "4012345678909", C: "ISO-0"}, {Fn: "decdata", IK: ikOf(desA), A: "zz", B: "request"}, {Fn: "mac", IK: ikOf(aesC), A: "x", B: "request", C: "none"},
			{Fn: "encdata", IK: ikOf(aesC), A: "x", B: "request", C: "0"}, {Fn: "next", IK: ikOf(desB)}, {Fn: "get", IK: ikOf(desB)}}
		both := []model.Op{create(desA), create(aesC)}
		for i, f := range failing {
			for _, o := range append(append(append([]model.Op{}, a[:6]...), c[0], c[2]), failing[i:]...) {
				add(both, 0, []model.Op{f}, []model.Op{o})
				if o.Fn != "delete" {
					emit(svcBuild(svcProgram{HTTP: true, Setup: both, Threads: [][]model.Op{{f}, {o}}, Limit: lim}))
				}
			}
		}
		// a service that already keeps a number of machines
		for _, n := range []int{20, 130} {
			var fill []model.Op
			for i := 0; i < n; i++ {
				fill = append(fill, create(server.BaseKey{Algorithm: "des", BaseDerivativeKey: desA.BaseDerivativeKey, KeySerialNumber: fmt.Sprintf("FFFF9876%06XE00001", i)}))
			}
			fill = append(fill, create(desA))
			combos(fill, [][]model.Op{{a[0]}, {{Fn: "list"}}, {a[3]}, {create(desB)}, {a[4]}, {a[2]}, {{Fn: "next", IK: ikOf(fill[0].Base)}}, {a[0], {Fn: "next", IK: ikOf(fill[1].Base)}}, {a[4], create(desB)}}, 2, 3)
		}
		if !r.Thorough {
			return
		}
		combos([]model.Op{create(desA), create(desB)}, singles(append(append([]model.Op{create(desA2)}, a...), b[0], b[4])), 3, 0)
		combos([]model.Op{create(aesC), create(desA)}, singles(append(append([]model.Op{}, c...), a[0])), 3, 0)
		combos([]model.Op{create(desA)}, sequences(a[:6], 2), 2, 0)
		combos([]model.Op{create(aesC)}, sequences(c[:5], 2), 2, 0)
		combos([]model.Op{create(aesZ)}, sequences(z[:3], 2), 2, 0)
		combos([]model.Op{create(desA)}, sequences([]model.Op{a[0], a[1], a[2]}, 3), 2, 3)
		combos([]model.Op{create(desA)}, sequences([]model.Op{a[0], a[1], a[4]}, 2), 3, 3)
		combos([]model.Op{create(desA)}, singles([]model.Op{a[0], a[1], a[2], a[3], a[4]}), 4, 3)
	})
}
