package racechecks

import (
	"bytes"
	"encoding/json"
	"fmt"
	"net/http"
	"sort"
	"strings"
	"time"

	"github.com/moov-io/dukpt/pkg/server"

	"verif.local/h/core"
	"verif.local/h/model"
	"verif.local/h/rest"
	"verif.local/h/sched"
	"verif.local/h/vsync"
)

// C30: requests that overlap are answered as if one after another. Scheduling points are the operations of sync,
// sync/atomic and channels in the code under test, the reads of a request's body and the writes of an answer. What an
// overlapping run may answer is what the real handler answers to the same requests one after another, in some order.

func init() {
	core.Register(&core.Check{ID: "C30", Level: "exploration", Race: true, Shard: runC30,
		Assume: []string{"the only scheduling points that matter are the operations of package sync and sync/atomic and on channels in the code under test, the reads of the requests' bodies, the writes of the answers and the request boundaries: between two such points the code is free of data races (the race detector watches every schedule), so finer interleavings are equivalent",
			"times, and header fields that differ between two runs of the same requests in the same order, are not compared"},
		Replay: map[string]func(*core.Run, json.RawMessage) error{"schedule": replaySchedule(restBuild)}})
}

// restReq is a request: an operation in one of its shapes, or (Fn "raw") method A, path B, body C.
type restReq struct {
	Op     model.Op
	Shape  int    `json:",omitempty"`
	Origin string `json:",omitempty"`
}

func (q restReq) String() string {
	s := q.Op.String()
	if q.Op.Fn == "raw" {
		s = fmt.Sprintf("%s %s %.60q", q.Op.A, q.Op.B, q.Op.C)
	}
	if q.Shape != 0 {
		s += fmt.Sprintf(" shape %d", q.Shape)
	}
	if q.Origin != "" {
		s += " from " + q.Origin
	}
	return s
}

func (q restReq) request() *http.Request {
	var r *http.Request
	if q.Op.Fn == "raw" {
		var body []byte
		if q.Op.C != "" {
			body = []byte(q.Op.C)
		}
		r = rest.New(q.Op.A, q.Op.B, body)
	} else {
		r = rest.Shape(rest.Request(q.Op), q.Shape)
	}
	if q.Origin != "" {
		r.Header.Set("Origin", q.Origin)
	}
	return r
}

type restProgram struct {
	Setup   []model.Op
	Threads [][]restReq
	Bound   int // preemption bound + 1
	Limit   int
	Turns   bool `json:",omitempty"`
}

func (p restProgram) String() string {
	var b strings.Builder
	var set []string
	for _, o := range p.Setup {
		set = append(set, o.String())
	}
	if len(set) > 6 {
		set = append(set[:3], fmt.Sprintf("... %d in all", len(p.Setup)))
	}
	if p.Turns {
		b.WriteString("taking turns ")
	}
	fmt.Fprintf(&b, "[%s]", strings.Join(set, "; "))
	for _, t := range p.Threads {
		b.WriteString(" || ")
		for i, q := range t {
			if i > 0 {
				b.WriteString("; ")
			}
			b.WriteString(q.String())
		}
	}
	return b.String()
}

// plain is an answer in a form that can be compared: the members of the JSON body sorted, machines in order, no times.
type plain struct {
	code int
	body string
	head map[string]string
}

func flatten(v any) any {
	switch x := v.(type) {
	case map[string]any:
		for k := range x {
			x[k] = flatten(x[k])
		}
	case []any:
		var o []string
		for i := range x {
			b, _ := json.Marshal(flatten(x[i]))
			o = append(o, string(b))
		}
		sort.Strings(o)
		return o
	case string:
		if _, err := time.Parse(time.RFC3339Nano, x); err == nil {
			return "time"
		}
	}
	return v
}

func plainOf(a rest.Answer) plain {
	p := plain{code: a.Code, body: string(a.Body), head: map[string]string{}}
	if a.Panic != "" {
		p.code, p.body = -1, strings.SplitN(a.Panic, "\n", 2)[0]
	}
	d := json.NewDecoder(bytes.NewReader(a.Body))
	d.UseNumber()
	var v any
	if d.Decode(&v) == nil && !d.More() {
		b, _ := json.Marshal(flatten(v))
		p.body = string(b)
	}
	for k, vs := range a.Header {
		if k != "Date" && k != "Content-Length" {
			p.head[k] = strings.Join(vs, " | ")
		}
	}
	return p
}

func (p plain) text(volatile map[string]bool) string {
	var ks []string
	for k := range p.head {
		if !volatile[k] {
			ks = append(ks, k+": "+p.head[k])
		}
	}
	sort.Strings(ks)
	return fmt.Sprintf("%d %s {%s}", p.code, p.body, strings.Join(ks, ", "))
}

// order is what the requests get one after another: order[i] is the thread whose next request comes i-th.
type orderRun struct {
	order   []int
	answers [][]plain // per thread
	final   string
}

func restSetup(p restProgram) (server.Service, http.Handler) {
	svc := server.NewService(server.NewRepositoryInMemory(nil))
	for _, o := range p.Setup {
		model.Exec(svc, o)
	}
	return svc, server.MakeHTTPHandler(svc)
}

func restInOrder(p restProgram, order []int) orderRun {
	svc, h := restSetup(p)
	r := orderRun{order: append([]int{}, order...), answers: make([][]plain, len(p.Threads))}
	for _, t := range order {
		q := p.Threads[t][len(r.answers[t])]
		r.answers[t] = append(r.answers[t], plainOf(rest.Do(h, q.request())))
	}
	r.final = strings.Join(model.List(svc), ";")
	return r
}

// orders calls f with every order that keeps the requests of a thread in order.
func orders(p restProgram, f func([]int)) {
	left := make([]int, len(p.Threads))
	total := 0
	for i, t := range p.Threads {
		left[i] = len(t)
		total += len(t)
	}
	var rec func(o []int)
	rec = func(o []int) {
		if len(o) == total {
			f(o)
			return
		}
		for t := range left {
			if left[t] > 0 {
				left[t]--
				rec(append(o, t))
				left[t]++
			}
		}
	}
	rec(nil)
}

func restBuild(p restProgram) *program {
	pr := &program{name: p.String(), data: p, bound: p.Bound - 1, limit: p.Limit, turns: p.Turns}
	var serial []orderRun
	volatile := map[string]bool{}
	pr.fresh = func() ([]func(*sched.Task), func() (string, []byte)) {
		if serial == nil {
			orders(p, func(o []int) { serial = append(serial, restInOrder(p, o)) })
			again := restInOrder(p, serial[0].order)
			for t := range again.answers {
				for i, a := range again.answers[t] {
					b := serial[0].answers[t][i]
					for _, m := range []map[string]string{a.head, b.head} {
						for k := range m {
							if a.head[k] != b.head[k] {
								volatile[k] = true
							}
						}
					}
				}
			}
		}
		svc, h := restSetup(p)
		type ev struct {
			call, ret int64
			a         plain
		}
		events := make([][]ev, len(p.Threads))
		bodies := make([]func(*sched.Task), len(p.Threads))
		for i := range p.Threads {
			bodies[i] = func(t *sched.Task) {
				evs := make([]ev, 0, len(p.Threads[i]))
				for k, q := range p.Threads[i] {
					if k > 0 {
						t.Point()
					}
					e := ev{call: t.Tick()}
					a := rest.DoStepwise(h, q.request(), func() { vsync.Await() })
					e.ret = t.Tick()
					e.a = plainOf(a)
					evs = append(evs, e)
				}
				events[i] = evs
			}
		}
		return bodies, func() (string, []byte) {
			final := strings.Join(model.List(svc), ";")
			var hist []byte
			for i, es := range events {
				for _, e := range es {
					hist = append(hist, byte(i), byte(e.call), byte(e.ret))
					hist = append(hist, e.a.text(volatile)...)
				}
			}
			hist = append(hist, final...)
			fits := func(s orderRun) bool {
				if s.final != final {
					return false
				}
				at := make([]int, len(events))
				latest := int64(-1) // the latest call so far
				for _, t := range s.order {
					e := events[t][at[t]]
					if e.ret < latest {
						return false // it had returned before one ahead of it was called
					}
					latest = max(latest, e.call)
					if e.a.text(volatile) != s.answers[t][at[t]].text(volatile) {
						return false
					}
					at[t]++
				}
				return true
			}
			for _, s := range serial {
				if fits(s) {
					return "", hist
				}
			}
			var b strings.Builder
			for i, es := range events {
				for k, e := range es {
					fmt.Fprintf(&b, "T%d[%d,%d] %s -> %.600s; ", i, e.call, e.ret, p.Threads[i][k], e.a.text(volatile))
				}
			}
			s := serial[0]
			fmt.Fprintf(&b, "final %.600s. One after another in the order %v:", final, s.order)
			for i, as := range s.answers {
				for _, a := range as {
					fmt.Fprintf(&b, " T%d -> %.400s;", i, a.text(volatile))
				}
			}
			return "no order of the requests gives these answers: " + b.String(), hist
		}
	}
	return pr
}

func runC30(r *core.Run) {
	r.Rule(schedRule)
	lim := 20000
	if r.Thorough {
		lim = 500000
	}
	origins := []string{"", "https://moov.io", "http://localhost:3000", "http://example.com"}
	raw := func(m, p, b string) model.Op { return model.Op{Fn: "raw", A: m, B: p, C: b} }
	hop := func(o []model.Op) (x []model.Op) {
		for _, y := range o {
			if y.Fn != "delete" {
				x = append(x, y)
			}
		}
		return
	}
	ikA, ikC := ikOf(desA), ikOf(aesC)
	// the same routes with other parameters: answers must not be mixed up
	other := []model.Op{
		{Fn: "encpin", IK: ikA, A: "98765", B: "4111111111111111", C: "ISO-2"},
		{Fn: "encdata", IK: ikA, A: "another text of some length to encipher", B: "response", C: "0102030405060708"},
		{Fn: "mac", IK: ikC, A: "x", B: "response", C: "hmac"},
		{Fn: "mac", IK: ikA, A: "", B: "request", C: ""},
		{Fn: "encdata", IK: ikC, A: "z", B: "request", C: ""},
		{Fn: "encpin", IK: ikC, A: "1234567890", B: "4012345678909"},
	}
	failing := []model.Op{{Fn: "encpin", IK: ikA, A: "12", B: "4012345678909", C: "ISO-0"}, {Fn: "decdata", IK: ikA, A: "zz", B: "request"}, {Fn: "mac", IK: ikC, A: "x", B: "request", C: "none"},
		{Fn: "next", IK: ikOf(desZ)}, {Fn: "get", IK: "absent"}, {Fn: "create", Base: server.BaseKey{Algorithm: "des", BaseDerivativeKey: "00", KeySerialNumber: "FFFF9876543210E00001"}}}
	raws := []model.Op{raw("OPTIONS", "/machines", ""), raw("GET", "/ping", ""), raw("POST", "/machine", `{"Algorithm":`), raw("POST", "/encrypt_data/"+ikA, `{"data":7}`), raw("PUT", "/machine", ""), raw("GET", "/nowhere", "")}
	n, taking := 0, false
	shardRun(r, func(emit func(*program)) {
		add := func(setup []model.Op, bound int, threads ...[]model.Op) {
			pr := restProgram{Setup: setup, Bound: bound, Limit: lim, Turns: taking}
			for t, ops := range threads {
				var qs []restReq
				for k, o := range ops {
					q := restReq{Op: o, Origin: origins[(n+t+k)%len(origins)]}
					if o.Fn != "raw" {
						q.Shape = []int{0, 11, 3, 5, 0, 4, 2, 1, 0, 10}[(n/3+2*t+k)%10]
						if q.Shape == 4 {
							q.Origin = ""
						}
					}
					qs = append(qs, q)
				}
				pr.Threads = append(pr.Threads, qs)
			}
			n++
			emit(restBuild(pr))
		}
		combos := func(setup []model.Op, alpha []model.Op, k, bound int) {
			multisets(len(alpha), k, func(c []int) {
				th := make([][]model.Op, k)
				for i, x := range c {
					th[i] = []model.Op{alpha[x]}
				}
				add(setup, bound, th...)
			})
		}
		a, c := hop(opsOn(desA)), hop(opsOn(aesC))
		b := hop(opsOn(desB))
		two := 3 // two preemptions
		if r.Thorough {
			two = 4
		}
		ready := []model.Op{create(desA), create(aesC)}
		all := append(append(append(append(append([]model.Op{}, a...), c...), other...), failing...), raws...)
		combos(ready, all, 2, two)
		combos(nil, append(append([]model.Op{create(desA2)}, a...), b[0], b[2], raws[2]), 2, two)
		combos([]model.Op{create(aesZ), create(desZ)}, []model.Op{{Fn: "next", IK: ikOf(aesZ)}, {Fn: "next", IK: ikOf(desZ)}, {Fn: "get", IK: ikOf(aesZ)}, {Fn: "list"}, create(aesZ)}, 2, two)
		// the same operation beside itself with one parameter changed
		for _, o := range append(append(append([]model.Op{}, a...), c...), other...) {
			if o.A == "" && o.B == "" {
				continue
			}
			var near []model.Op
			vary := func(f func(q *model.Op)) {
				q := o
				f(&q)
				near = append(near, q)
			}
			vary(func(q *model.Op) {
				switch o.Fn {
				case "encpin":
					q.A = "4321" + strings.Repeat("0", max(0, len(o.A)-4))
				case "decpin", "decdata":
					q.A = strings.Repeat("5a", max(8, len(o.A)/2))
				default:
					q.A = strings.Repeat("B", max(1, len(o.A)))
				}
			})
			vary(func(q *model.Op) {
				if strings.HasSuffix(o.Fn, "pin") {
					q.B = "5500000000000004"
				} else {
					q.B = map[string]string{"request": "response", "response": "request"}[o.B]
				}
			})
			vary(func(q *model.Op) {
				switch o.Fn {
				case "mac":
					q.C = map[string]string{"cmac": "hmac", "hmac": "cmac"}[o.C]
				case "encdata", "decdata":
					q.C = strings.Repeat("1f", map[bool]int{true: 8, false: 16}[o.IK == ikA])
				default:
					q.C = "ISO-3"
				}
			})
			vary(func(q *model.Op) { q.IK = map[bool]string{true: ikC, false: ikA}[o.IK == ikA] })
			for _, q := range near {
				if q != o {
					add(ready, two, []model.Op{o}, []model.Op{q})
				}
			}
		}
		// three requests at once
		combos(ready, []model.Op{a[0], a[2], other[1], failing[0], c[0], raws[2], {Fn: "list"}}, 3, 2)
		// two after another beside one or two
		for _, x := range []model.Op{a[0], a[2], other[1], c[0], failing[0]} {
			for _, y := range []model.Op{a[0], a[1], other[0], raws[0], failing[1]} {
				add(ready, two, []model.Op{x, y}, []model.Op{a[0]})
				add(ready, 2, []model.Op{x, y}, []model.Op{y, x})
			}
		}
		nx := a[0]
		add(ready, two, []model.Op{nx, nx, nx}, []model.Op{nx, nx})
		// several at once, all of them begun before the first ends
		turns := func(departures int, ops ...model.Op) {
			var th [][]model.Op
			for _, o := range ops {
				th = append(th, []model.Op{o})
			}
			taking = true
			add(ready, departures+1, th...)
			taking = false
		}
		for _, o := range []model.Op{nx, a[1], a[2], other[0], failing[0], raws[0], c[2], {Fn: "list"}, create(desB)} {
			turns(2, o, o, o)
			turns(1, o, a[2], nx, o, other[0])
			turns(1, o, o, o, o)
			turns(1, o, a[2], o, nx, raws[2])
		}
		// long bodies, which a server may treat otherwise
		text := strings.Repeat("0123456789ABCDEF", 700)
		for _, o := range []model.Op{{Fn: "encdata", IK: ikA, A: text, B: "request"}, {Fn: "mac", IK: ikC, A: text, B: "request", C: "cmac"}} {
			for _, o2 := range []model.Op{o, {Fn: "encdata", IK: ikC, A: text[16:], B: "response"}, a[2], failing[1], a[0], raw("POST", "/machine", `{"Algorithm":"`+text)} {
				add(ready, two, []model.Op{o}, []model.Op{o2})
			}
		}
		if !r.Thorough {
			return
		}
		combos(ready, append(append(append([]model.Op{}, a...), c[0], c[2]), failing[:3]...), 3, 3)
		combos(ready, all, 2, 6)
	})
}
