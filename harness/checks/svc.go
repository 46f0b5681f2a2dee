package checks

import (
	"encoding/json"
	"errors"
	"fmt"
	"net/http"
	"slices"
	"sort"
	"strings"
	"sync/atomic"
	"time"

	"github.com/moov-io/dukpt/pkg/server"

	"verif.local/h/core"
	"verif.local/h/model"
	"verif.local/h/rest"
)

func init() {
	core.Register(&core.Check{ID: "C21", Level: "model_checking", Run: runC21,
		Assume: []string{"a service is a function of the calls made on it: two services with the same call history behave alike (each transition is taken on a fresh service)"},
		Replay: map[string]func(*core.Run, json.RawMessage) error{"trace": replayTrace(judgeC21), "fault": replayFault21}})
	core.Register(&core.Check{ID: "C22", Level: "exploration", Run: runC22,
		Replay: map[string]func(*core.Run, json.RawMessage) error{"edits": replayEdits, "fault": replayFault22}})
}

// world is a real service, reached directly or through its HTTP handler.
type world struct {
	svc   server.Service
	h     http.Handler
	shape int
	step  int
	seen  rest.Cache
}

func newWorld(t trace) *world {
	w := &world{svc: server.NewService(server.NewRepositoryInMemory(nil)), shape: t.Shape}
	if t.HTTP {
		w.h, w.seen = server.MakeHTTPHandler(w.svc), rest.Cache{}
	}
	return w
}

func (w *world) do(op model.Op) (model.Res, rest.Answer) {
	if w.h != nil {
		if req := rest.Request(op); req != nil { // deletion has no route
			a := w.seen.Do(w.h, rest.ShapeAt(req, w.shape, w.step))
			w.step++
			return rest.Res(op, a), a
		}
	}
	return model.Exec(w.svc, op), rest.Answer{}
}

// safely turns a panic of the code under test into an error.
func safely(f func() error) (err error) {
	defer func() {
		if p := recover(); p != nil {
			err = fmt.Errorf("panic: %v", p)
		}
	}()
	return f()
}

// trace is a history on a fresh service.
type trace struct {
	HTTP  bool `json:",omitempty"`
	Shape int  `json:",omitempty"` // how the HTTP requests are written
	Ops   []model.Op
	// Every: what the service holds is compared after every call, not only after the last
	Every bool `json:",omitempty"`
	// Cross: what the last call encrypted is decrypted with every other set of parameters, too
	Cross bool `json:",omitempty"`
	// Crowd: the machines of crowd(n) come first
	Crowd int `json:",omitempty"`
}

func (t trace) String() string {
	var s []string
	if t.Crowd > 0 {
		s = append(s, fmt.Sprintf("%d machines created, asked for, stepped, every third deleted", t.Crowd))
	}
	for _, o := range t.Ops {
		s = append(s, o.String())
	}
	return strings.Join(s, "; ")
}

// stepJudge decides one answer.
type stepJudge func(op model.Op, exp model.Exp, res model.Res, a rest.Answer) error

type traceJudge func(sp *model.Spec, t trace) (int, error)

// follow makes the decryption that undoes a successful encryption.
func follow(op model.Op, res model.Res) (model.Op, bool) {
	if res.Kind != "text" {
		return op, false
	}
	switch op.Fn {
	case "encpin":
		return model.Op{Fn: "decpin", IK: op.IK, A: res.S, B: op.B, C: op.C}, true
	case "encdata":
		return model.Op{Fn: "decdata", IK: op.IK, A: res.S, B: op.B, C: op.C}, true
	}
	return op, false
}

var (
	argPans    = []string{"", "4", "401234567890", "4012345678909", "4012345678909876", "4012345678909876543", "40123456789098765432", "40123456789O9"}
	argFormats = []string{"", "ISO-0", "ISO-1", "ISO-2", "ISO-3", "ISO-4", "ANSI", "ECI1", "ECI2", "ECI3", "ECI4", "VISA1", "VISA2", "VISA3", "VISA4", "iso-1", "Iso-3", "ISO-9", "ISO0", " "}
	argPins    = []string{"", "123", "1234", "12345", "123456", "123456789012", "1234567890123", "12a4", "0000"}
	argIVs     = []string{"", "00", "80", "0102030405060708", "0102030405060780", "0102030405060708090a0b0c0d0e0f10", "0102030405060708090A0B0C0D0E0F101112", "0", "zz", " "}
	argTexts   = []string{"", "a", "1234567", "12345678", "123456789", "4012345678909D987", "4012345678909D98", "\x00", "\x80", "a\x80", " a ", "a\n", "31323334", "%41", "null", strings.Repeat("4012345678909D987", 70)}
	argTypes   = []string{"", "cmac", "hmac", "CMAC", "HMAC", "mac", " "}
)

// argOps is the product of the parameters of every operation on a machine.
func argOps(ik string, emit func(model.Op) bool) bool {
	for _, pan := range argPans {
		for _, f := range argFormats {
			for _, pin := range argPins {
				if !emit(model.Op{Fn: "encpin", IK: ik, A: pin, B: pan, C: f}) {
					return false
				}
			}
			for _, ct := range []string{"", "00", "0011223344556677", "00112233445566778899aabbccddeeff", "00112233445566778899AABBCCDDEEFF00", "zz11223344556677"} {
				emit(model.Op{Fn: "decpin", IK: ik, A: ct, B: pan, C: f})
			}
		}
	}
	for _, t := range argTexts {
		for _, a := range actions {
			for _, mt := range argTypes {
				emit(model.Op{Fn: "mac", IK: ik, A: t, B: a, C: mt})
			}
			for _, iv := range argIVs {
				emit(model.Op{Fn: "encdata", IK: ik, A: t, B: a, C: iv})
			}
		}
	}
	for _, n := range []int{0, 2, 14, 16, 18, 32, 34, 48, 64, 2000} {
		for _, a := range actions {
			for _, iv := range argIVs {
				ct := strings.Repeat("0123456789abcdefFEDCBA9876543210", n/32+1)[:n]
				if !emit(model.Op{Fn: "decdata", IK: ik, A: ct, B: a, C: iv}) {
					return false
				}
			}
		}
	}
	return true
}

// argTraces takes every parameter combination on machines of every kind, after n steps.
func argTraces(sp *model.Spec, steps []int, emit func(trace) bool) {
	for _, b := range []server.BaseKey{mD0, mA0, mA192, mA256, mDlower, mLower, mHmac, mMismatch} {
		ik := ikOf(sp, b)
		other := mD0b
		if b.Algorithm == "des" {
			other = mA0b
		}
		for _, n := range steps {
			pre := []model.Op{opCreate(other), opCreate(b)}
			for i := 0; i < n; i++ {
				pre = append(pre, model.Op{Fn: "next", IK: ik})
			}
			if !argOps(ik, func(o model.Op) bool {
				return emit(trace{Ops: append(pre[:len(pre):len(pre)], o), Cross: true})
			}) {
				return
			}
		}
	}
}

// cross makes the decryptions of the text with every other set of parameters.
func cross(op model.Op, text string) (o []model.Op) {
	switch op.Fn {
	case "encpin":
		for _, pan := range append([]string{op.B}, argPans[:6]...) {
			for _, f := range argFormats {
				o = append(o, model.Op{Fn: "decpin", IK: op.IK, A: text, B: pan, C: f})
			}
		}
		o = append(o, model.Op{Fn: "decpin", IK: op.IK, A: strings.ToUpper(text), B: op.B, C: op.C})
	case "encdata":
		for _, a := range []string{op.B, "response", "request", "RESPONSE"} {
			for _, iv := range append([]string{op.C}, argIVs[:7]...) {
				o = append(o, model.Op{Fn: "decdata", IK: op.IK, A: text, B: a, C: iv})
			}
		}
		o = append(o, model.Op{Fn: "decdata", IK: op.IK, A: strings.ToUpper(text), B: op.B, C: op.C})
	}
	return
}

// play runs a trace and judges every answer and, if state is set, what the service holds.
func play(sp *model.Spec, t trace, state bool, judge stepJudge) (steps int, err error) {
	w := newWorld(t)
	s := model.NewState()
	step := func(op model.Op) (model.Res, error) {
		exp := sp.Step(s, op)
		res, a := w.do(op)
		steps++
		return res, judge(op, exp, res, a)
	}
	held := func(op model.Op) error {
		if !state {
			return nil
		}
		return safely(func() error {
			if got, want := strings.Join(model.List(w.svc), ";"), s.Key(); got != want {
				return fmt.Errorf("after %s the service holds [%s], want [%s]", op, got, want)
			}
			return nil
		})
	}
	if t.Crowd > 0 {
		err = crowd(sp, t.Crowd, func(op model.Op) error {
			_, err := step(op)
			return err
		})
		if err != nil {
			return steps, fmt.Errorf("step %d of [%s]: %v", steps, t, err)
		}
	}
	for i, op := range t.Ops {
		res, err := step(op)
		last := i == len(t.Ops)-1
		if err == nil && (last || t.Every) {
			err = held(op)
		}
		if err == nil && last {
			if back, ok := follow(op, res); ok {
				_, err = step(back)
				if err == nil {
					err = held(back)
				}
			}
			if t.Cross && res.Kind == "text" {
				for _, x := range cross(op, res.S) {
					if err != nil {
						break
					}
					_, err = step(x)
				}
			}
		}
		if err != nil {
			return steps, fmt.Errorf("step %d of [%s]: %v", i, t, err)
		}
	}
	return steps, nil
}

func judgeC21(sp *model.Spec, t trace) (int, error) {
	return play(sp, t, true, func(op model.Op, exp model.Exp, res model.Res, _ rest.Answer) error {
		if err := exp.Check(res); err != nil {
			return fmt.Errorf("%s: %v", op, err)
		}
		return nil
	})
}

func replayTrace(j traceJudge) func(*core.Run, json.RawMessage) error {
	return func(_ *core.Run, data json.RawMessage) error {
		var t trace
		if err := json.Unmarshal(data, &t); err != nil {
			return err
		}
		_, err := j(model.NewSpec(), t)
		return err
	}
}

// Machines of the enumerated histories.
func desBase(ksn string) server.BaseKey {
	return server.BaseKey{Algorithm: "des", BaseDerivativeKey: "0123456789ABCDEFFEDCBA9876543210", KeySerialNumber: ksn}
}

func aesBase(bits int, ksn string) server.BaseKey {
	k := "FEDCBA9876543210F1F1F1F1F1F1F1F10123456789abcdeffedcba9876543210"
	return server.BaseKey{Algorithm: "aes", AlgorithmKey: fmt.Sprintf("AES%d", bits), BaseDerivativeKey: k[:bits/4], KeySerialNumber: ksn}
}

var (
	mD0     = desBase("FFFF9876543210E00000")
	mD0b    = desBase("FFFF9876543210E00005") // same device, so the same initial key
	mDcarry = desBase("FFFF9876543211E003FF")
	mDend   = desBase("FFFF9876543212FFF400") // two counters before the end
	mDend2  = desBase("FFFF9876543213FFEFFF")
	mDshort = desBase("76543214E00003")
	mA0     = aesBase(128, "123456789012345600000000")
	mA0b    = aesBase(128, "12345678901234560000FFFF")
	mA192   = aesBase(192, "1234567890123457000000FF")
	mA256   = aesBase(256, "12345678901234580001FFFE")
	mAend   = aesBase(256, "1234567890123459FFFE8000")
	mAend1  = aesBase(128, "123456789012345aFFFD8000")
)

func with(b server.BaseKey, f func(*server.BaseKey)) server.BaseKey { f(&b); return b }

var (
	mMismatch = with(mA0, func(b *server.BaseKey) { b.AlgorithmKey = "AES256" })
	mHmac     = with(mA192, func(b *server.BaseKey) { b.AlgorithmKey = "HMAC192" })
	mLower    = with(aesBase(128, "1234567890ABCDEF00000003"), func(b *server.BaseKey) { b.AlgorithmKey = "aes128" })
	mDlower   = with(desBase("ffff9876543215e0000a"), func(b *server.BaseKey) {
		b.BaseDerivativeKey = strings.ToLower(b.BaseDerivativeKey)
		b.AlgorithmKey = "AES128"
	})
)

var badBases = []server.BaseKey{
	{}, with(mD0, func(b *server.BaseKey) { b.Algorithm = "" }), with(mD0, func(b *server.BaseKey) { b.Algorithm = "tdes" }),
	with(mD0, func(b *server.BaseKey) { b.BaseDerivativeKey = "" }), with(mD0, func(b *server.BaseKey) { b.BaseDerivativeKey = b.BaseDerivativeKey[:30] }),
	with(mD0, func(b *server.BaseKey) { b.BaseDerivativeKey += "00" }), with(mD0, func(b *server.BaseKey) { b.BaseDerivativeKey = "Z" + b.BaseDerivativeKey[1:] }),
	with(mD0, func(b *server.BaseKey) { b.KeySerialNumber = "" }), with(mD0, func(b *server.BaseKey) { b.KeySerialNumber += "00" }),
	with(mD0, func(b *server.BaseKey) { b.KeySerialNumber = b.KeySerialNumber[1:] }),
	with(mA0, func(b *server.BaseKey) { b.KeySerialNumber = b.KeySerialNumber[:16] }), with(mA0, func(b *server.BaseKey) { b.KeySerialNumber += "00" }),
	with(mA0, func(b *server.BaseKey) { b.BaseDerivativeKey += "00" }), with(mA0, func(b *server.BaseKey) { b.KeySerialNumber = "" }),
	with(mA0, func(b *server.BaseKey) { b.Algorithm = "des" }),
}

func opCreate(b server.BaseKey) model.Op { return model.Op{Fn: "create", Base: b} }

// opsFor is every operation on the named machine, aes or des.
func opsFor(ik, alg string) []model.Op {
	ct := "00112233445566778899aabbccddeeff"
	o := []model.Op{
		{Fn: "get", IK: ik}, {Fn: "next", IK: ik}, {Fn: "delete", IK: ik},
		{Fn: "encpin", IK: ik, A: "1234", B: "4012345678909", C: ""},
		{Fn: "encpin", IK: ik, A: "123456789", B: "401234567890987", C: "iso-3"},
		{Fn: "decpin", IK: ik, A: ct[:map[string]int{"des": 16, "aes": 32}[alg]], B: "4012345678909", C: "ISO-0"},
		{Fn: "mac", IK: ik, A: "4012345678909D98", B: "request", C: "cmac"},
		{Fn: "mac", IK: ik, A: "4012345678909D987", B: "response", C: "hmac"},
		{Fn: "mac", IK: ik, A: "", B: "", C: "cmac"},
		{Fn: "encdata", IK: ik, A: "4012345678909D98", B: "request", C: ""},
		{Fn: "encdata", IK: ik, A: "4012345678909D987", B: "response", C: "0102030405060708090a0b0c0d0e0f10"},
		{Fn: "decdata", IK: ik, A: ct, B: "request", C: ""},
		{Fn: "decdata", IK: ik, A: ct + ct, B: "response", C: "0102030405060708"},
	}
	return o
}

// badOpsFor fail on every machine.
func badOpsFor(ik, alg string) []model.Op {
	o := []model.Op{
		{Fn: "encpin", IK: ik, A: "12", B: "4012345678909", C: ""},
		{Fn: "encpin", IK: ik, A: "1234", B: "", C: ""},
		{Fn: "decpin", IK: ik, A: "zz", B: "4012345678909", C: ""},
		{Fn: "decpin", IK: ik, A: "00", B: "4012345678909", C: ""},
		{Fn: "decpin", IK: ik, A: "", B: "4012345678909", C: ""},
		{Fn: "encdata", IK: ik, A: "data", B: "request", C: "0"},
		{Fn: "decdata", IK: ik, A: "xyz", B: "request", C: ""},
		{Fn: "decdata", IK: ik, A: "00112233445566778899aabbccddeeff", B: "request", C: "zz"},
	}
	if alg == "aes" {
		o = append(o, model.Op{Fn: "mac", IK: ik, A: "data", B: "request", C: "mac"}, model.Op{Fn: "mac", IK: ik, A: "data", B: "request", C: ""})
	} else {
		o = append(o, model.Op{Fn: "encpin", IK: ik, A: "1234", B: "4012345678909", C: "ISO-9"})
	}
	return o
}

func ikOf(sp *model.Spec, b server.BaseKey) string {
	s := model.NewState()
	if sp.Step(s, opCreate(b)).Kind != "record" {
		panic("harness: bad base key " + b.KeySerialNumber)
	}
	for ik := range s.Ms {
		return ik
	}
	return ""
}

const absentIK = "6ac292faa1315b4d858ab3a3d7d5933a"

type universe struct {
	bases []server.BaseKey
	depth int
}

func (u universe) ops(sp *model.Spec) (o []model.Op) {
	seen := map[string]bool{}
	for _, b := range u.bases {
		o = append(o, opCreate(b))
		ik := ikOf(sp, b)
		if !seen[ik] {
			seen[ik] = true
			o = append(o, opsFor(ik, b.Algorithm)...)
			o = append(o, badOpsFor(ik, b.Algorithm)...)
		}
	}
	o = append(o, model.Op{Fn: "list"}, model.Op{Fn: "createnil"})
	for _, b := range badBases {
		o = append(o, opCreate(b))
	}
	return append(o, opsFor(absentIK, "des")...)
}

// bfs enumerates every state of the specification reachable within the depth and emits, for every state and every
// operation, the trace that takes this transition: a shortest path to the state and the operation.
func bfs(sp *model.Spec, u universe, emit func(ops []model.Op) bool) (states, transitions int64) {
	type node struct {
		s    *model.State
		path []model.Op
	}
	ops := u.ops(sp)
	seen := map[string]bool{model.NewState().Key(): true}
	front := []node{{model.NewState(), nil}}
	states = 1
	for d := 0; len(front) > 0; d++ {
		var next []node
		for _, n := range front {
			for _, op := range ops {
				transitions++
				path := append(append(make([]model.Op, 0, len(n.path)+1), n.path...), op)
				if !emit(path) {
					return
				}
				if d == u.depth || !changes(op) {
					continue
				}
				c := n.s.Clone()
				sp.Step(c, op)
				if k := c.Key(); !seen[k] {
					seen[k] = true
					states++
					next = append(next, node{c, path})
				}
			}
		}
		front = next
	}
	return
}

func changes(op model.Op) bool { return op.Fn == "create" || op.Fn == "next" || op.Fn == "delete" }

func svcUniverses(r *core.Run) []universe {
	d := 2
	if r.Thorough {
		d = 5
	}
	return []universe{
		{[]server.BaseKey{mD0, mD0b, mDcarry, mA0}, 6 + d},
		{[]server.BaseKey{mA0, mA0b, mA192, mDend}, 6 + d},
		{[]server.BaseKey{mAend, mDend, mA256, mDshort}, 6 + d},
		{[]server.BaseKey{mMismatch, mHmac, mLower, mDlower, mD0}, 5 + d},
		{[]server.BaseKey{mDend2, mAend1}, 18 + d},
		{[]server.BaseKey{mAend, mDend}, 12 + d},
	}
}

// runTraces judges traces on all workers.
func runTraces(r *core.Run, kind string, judge traceJudge, gen func(emit func(trace) bool)) {
	specs := make([]*model.Spec, r.Workers)
	for i := range specs {
		specs[i] = model.NewSpec()
	}
	n := 0
	core.Feed(r, func(emit func(trace) bool) {
		gen(func(t trace) bool {
			if n%40009 == 5 {
				r.Sample(t.String())
			}
			n++
			return emit(t)
		})
	}, func(w int, t trace) {
		r.Busy(w, kind, "trace", t)
		steps, err := judge(specs[w], t)
		r.Eval(int64(steps))
		r.Count("traces_validated_against_impl", 1)
		if err != nil {
			r.Violate(kind, "trace:"+t.String(), err.Error(), t)
		}
	})
}

// histories emits all sequences of exactly the given length.
func histories(alpha []model.Op, depth int, emit func([]model.Op) bool) {
	ix := make([]int, depth)
	for {
		s := make([]model.Op, depth)
		for i, x := range ix {
			s[i] = alpha[x]
		}
		if !emit(s) {
			return
		}
		i := depth - 1
		for ; i >= 0; i-- {
			ix[i]++
			if ix[i] < len(alpha) {
				break
			}
			ix[i] = 0
		}
		if i < 0 {
			return
		}
	}
}

// population is a history with n machines alive at once, some used, some deleted and created again.
func population(sp *model.Spec, n int) (ops []model.Op) {
	var iks []string
	var bs []server.BaseKey
	for i := 0; i < n; i++ {
		b := desBase(fmt.Sprintf("FFFF9876%06XE00001", i))
		switch i % 4 {
		case 1:
			b = aesBase(128, fmt.Sprintf("12345678%08X00000000", i))
		case 2:
			b = aesBase(256, fmt.Sprintf("%08X123456780000FFFF", i))
		}
		bs = append(bs, b)
		iks = append(iks, ikOf(sp, b))
		ops = append(ops, opCreate(b))
		if i%3 == 0 {
			ops = append(ops, model.Op{Fn: "next", IK: iks[i/2]})
		}
		if i%5 == 4 {
			ops = append(ops, model.Op{Fn: "delete", IK: iks[i/3]})
		}
		if i%10 == 9 {
			ops = append(ops, opCreate(bs[i/3]), model.Op{Fn: "list"})
		}
	}
	for i, ik := range iks {
		ops = append(ops, model.Op{Fn: "get", IK: ik}, model.Op{Fn: "encdata", IK: ik, A: "4012345678909D98", B: "request"}, model.Op{Fn: "next", IK: ik})
		if i%7 == 0 {
			ops = append(ops, model.Op{Fn: "delete", IK: ik}, model.Op{Fn: "get", IK: ik})
		}
	}
	return append(ops, model.Op{Fn: "list"})
}

// crowdTime is what a crowd may take: a store whose calls take longer the more it holds gets a smaller crowd.
const crowdTime = 45 * time.Second

var crowdCut atomic.Bool

// crowd plays a population so large that the names of two machines agree in any 32 bits of a digest of them.
func crowd(sp *model.Spec, n int, play func(model.Op) error) (err error) {
	iks := make([]string, n)
	end := time.Now().Add(crowdTime)
	do := func(o model.Op) {
		if err == nil && !time.Now().After(end) {
			err = play(o)
		} else {
			crowdCut.Store(true)
		}
	}
	for i := range iks {
		if time.Now().After(end.Add(-crowdTime / 3)) {
			// the rest of the time is for those there are
			crowdCut.Store(true)
			iks = iks[:i]
			break
		}
		b := desBase(fmt.Sprintf("FFFF9876%06XE00001", i))
		iks[i] = ikOf(sp, b)
		do(opCreate(b))
	}
	for i, ik := range iks {
		if do(model.Op{Fn: "get", IK: ik}); i%4 == 0 {
			do(model.Op{Fn: "next", IK: ik})
		}
	}
	for i, ik := range iks {
		if i%3 == 0 {
			do(model.Op{Fn: "delete", IK: ik})
		}
	}
	for _, ik := range iks {
		do(model.Op{Fn: "get", IK: ik})
	}
	return err
}

// fillTraces create machines from records that hold something already, before, after and between other operations.
func fillTraces(sp *model.Spec, depth int, emit func(trace) bool) {
	for _, b := range []server.BaseKey{mD0, mA0, mA256, mDend, mAend} {
		ik := ikOf(sp, b)
		alpha := []model.Op{opCreate(b), {Fn: "next", IK: ik}, {Fn: "delete", IK: ik}, {Fn: "mac", IK: ik, A: "4012345678909D98", B: "request", C: "cmac"}, {Fn: "get", IK: ik}}
		for _, f := range model.Fills {
			c := opCreate(b)
			c.A = f
			alpha = append(alpha, c)
		}
		for d := 1; d <= depth; d++ {
			histories(alpha, d, func(o []model.Op) bool { return emit(trace{Ops: o, Every: true}) })
		}
	}
	for _, b := range badBases {
		for _, f := range model.Fills {
			c := opCreate(b)
			c.A = f
			emit(trace{Ops: []model.Op{opCreate(mD0), c, {Fn: "list"}}, Every: true})
		}
	}
}

// nearTraces asks for every operation on names easily taken for those of machines that exist.
func nearTraces(sp *model.Spec, emit func([]model.Op) bool, ok func(string) bool) {
	for _, b := range []server.BaseKey{mD0, mA0, mA256} {
		ik := ikOf(sp, b)
		for _, n := range model.NearNames(ik) {
			if !ok(n) {
				continue
			}
			ops := []model.Op{opCreate(mD0), opCreate(b)}
			if b == mD0 {
				ops = []model.Op{opCreate(mA0), opCreate(b)}
			}
			for _, o := range opsFor(n, b.Algorithm) {
				if !emit(append(ops[:2:2], o)) {
					return
				}
			}
		}
	}
}

// litTraces name machines, fill every argument and create machines with the constants of the code.
func litTraces(sp *model.Spec, emit func([]model.Op) bool, okName, okText func(string) bool) {
	l := core.Lit()
	for _, b := range []server.BaseKey{mD0, mA0} {
		ik := ikOf(sp, b)
		pre := []model.Op{opCreate(b)}
		put := func(o model.Op) bool { return emit(append(pre[:1:1], o)) }
		for _, s := range l.Strings {
			for _, n := range []string{s, ik + s, s + ik} {
				if !okName(n) {
					continue
				}
				for _, o := range opsFor(n, b.Algorithm) {
					if !put(o) {
						return
					}
				}
			}
			if !okText(s) {
				continue
			}
			for _, o := range opsFor(ik, b.Algorithm) {
				for i, p := range []*string{&o.A, &o.B, &o.C} {
					if o.Fn == "get" || o.Fn == "next" || o.Fn == "delete" || o.Fn == "mac" && i == 2 && b.Algorithm == "des" {
						break
					}
					v := *p
					for _, x := range []string{s, v + s, s + v} {
						*p = x
						put(o)
					}
					*p = v
				}
			}
			for _, f := range []func(x *server.BaseKey, s string){
				func(x *server.BaseKey, s string) { x.Algorithm = s }, func(x *server.BaseKey, s string) { x.AlgorithmKey = s },
				func(x *server.BaseKey, s string) { x.BaseDerivativeKey = s }, func(x *server.BaseKey, s string) { x.KeySerialNumber = s }} {
				for _, x := range []string{s, hexs([]byte(s))} {
					put(opCreate(with(b, func(y *server.BaseKey) { f(y, x) })))
				}
			}
		}
		for _, x := range l.Bytes(hexb(b.BaseDerivativeKey)) {
			c := opCreate(with(b, func(y *server.BaseKey) { y.BaseDerivativeKey = hexs(x) }))
			if ck := ikTry(sp, c.Base); ck != "" {
				emit(append(pre[:1:1], c, model.Op{Fn: "next", IK: ck}, model.Op{Fn: "encdata", IK: ck, A: "4012345678909D98", B: "request"}))
			}
		}
		for _, x := range l.Bytes(hexb(b.KeySerialNumber)) {
			c := opCreate(with(b, func(y *server.BaseKey) { y.KeySerialNumber = hexs(x) }))
			if ck := ikTry(sp, c.Base); ck != "" {
				emit(append(pre[:1:1], c, model.Op{Fn: "next", IK: ck}, model.Op{Fn: "encdata", IK: ck, A: "4012345678909D98", B: "request"}, model.Op{Fn: "next", IK: ck}, model.Op{Fn: "get", IK: ck}))
			} else {
				emit(append(pre[:1:1], c, model.Op{Fn: "list"}))
			}
		}
		for n := 4; n <= 12; n++ {
			for _, d := range l.Digits(n, "65873210987654321") {
				put(model.Op{Fn: "encpin", IK: ik, A: d, B: "4012345678909"})
			}
		}
		for n := 12; n <= 19; n++ {
			for _, d := range l.Digits(n, "4012345678909123456789") {
				put(model.Op{Fn: "encpin", IK: ik, A: "1234", B: d})
			}
		}
		for _, z := range l.Sizes(20000) {
			put(model.Op{Fn: "mac", IK: ik, A: strings.Repeat("m", z), B: "request", C: "cmac"})
			put(model.Op{Fn: "encdata", IK: ik, A: strings.Repeat("d", z), B: "request"})
			put(model.Op{Fn: "encdata", IK: ik, A: "data", B: "request", C: strings.Repeat("5a", z)})
			put(model.Op{Fn: "decdata", IK: ik, A: strings.Repeat("a7", z), B: "request"})
		}
	}
}

// repeatTraces repeat one operation on one machine n times, while another machine stands by; afterwards the machine is asked once
// more and moved on.
func repeatTraces(sp *model.Spec, n int, emit func([]model.Op) bool) {
	for _, b := range []server.BaseKey{mD0, mA0, mA192, mA256} {
		ik := ikOf(sp, b)
		other := mA0b
		if b.Algorithm != "des" {
			other = mD0b
		}
		ops := opsFor(ik, b.Algorithm)
		bad := with(b, func(x *server.BaseKey) { x.BaseDerivativeKey += "0" })
		ops = append(ops, model.Op{Fn: "list"}, opCreate(b), opCreate(bad), model.Op{Fn: "next", IK: absentIK}, model.Op{Fn: "delete", IK: absentIK},
			model.Op{Fn: "mac", IK: absentIK, A: "x", B: "request", C: "cmac"}, model.Op{Fn: "get", IK: absentIK})
		ops = append(ops, badOpsFor(ik, b.Algorithm)...)
		for _, o := range ops {
			if o.Fn == "delete" && o.IK == ik { // created anew each time
				continue
			}
			h := []model.Op{opCreate(b), opCreate(other), {Fn: "next", IK: ik}}
			for i := 0; i < n; i++ {
				h = append(h, o)
			}
			for _, last := range opsFor(ik, b.Algorithm) { // their results are decrypted again
				if (last.Fn == "encpin" || last.Fn == "encdata") && !emit(append(slices.Clip(h), last)) {
					return
				}
			}
			h = append(h, model.Op{Fn: "get", IK: ik})
			for _, after := range opsFor(ik, b.Algorithm) {
				if after.Fn != "delete" && after.Fn != "get" {
					h = append(h, after)
				}
			}
			h = append(h, model.Op{Fn: "next", IK: ik}, model.Op{Fn: "get", IK: ik})
			if !emit(h) {
				return
			}
		}
		h := []model.Op{}
		for i := 0; i < n; i++ {
			h = append(h, opCreate(b), model.Op{Fn: "next", IK: ik}, model.Op{Fn: "delete", IK: ik})
		}
		if !emit(append(h, opCreate(b), model.Op{Fn: "get", IK: ik})) {
			return
		}
	}
}

// ikTry names the machine of a base key, "" if the specification refuses it.
func ikTry(sp *model.Spec, b server.BaseKey) string {
	s := model.NewState()
	sp.Step(s, opCreate(b))
	for ik := range s.Ms {
		return ik
	}
	return ""
}

func runC21(r *core.Run) {
	sp := model.NewSpec()
	r.Set("rule_of_traces", "a state is what the specification holds (machines with base key, counter and transaction key); a transition is one operation in one state; "+
		"each transition is taken on a fresh real service by replaying a shortest path to the state; the answer of every call of the path and everything the service then holds are compared; "+
		"besides, all operation sequences of the stated length are replayed, which covers dependence on history beyond the state")
	var states, trans int64
	runTraces(r, "trace", judgeC21, func(emit func(trace) bool) {
		for _, u := range svcUniverses(r) {
			s, t := bfs(sp, u, func(ops []model.Op) bool { return emit(trace{Ops: ops}) })
			states += s
			trans += t
		}
	})
	r.Set("states", states)
	r.Set("transitions", trans)
	// all sequences
	ikD, ikA := ikOf(sp, mD0), ikOf(sp, mA0)
	alpha := []model.Op{
		opCreate(mD0), opCreate(mD0b), opCreate(mA0b), {Fn: "next", IK: ikD}, {Fn: "next", IK: ikA}, {Fn: "delete", IK: ikD}, {Fn: "delete", IK: ikA},
		{Fn: "encdata", IK: ikD, A: "4012345678909D98", B: "request"}, {Fn: "mac", IK: ikA, A: "4012345678909D98", B: "response", C: "cmac"},
		{Fn: "encpin", IK: ikD, A: "1234", B: "4012345678909"}, {Fn: "get", IK: ikD}, {Fn: "list"}, opCreate(badBases[4]), {Fn: "next", IK: absentIK},
	}
	depth := 5
	if r.Thorough {
		depth = 6
	}
	runTraces(r, "trace", judgeC21, func(emit func(trace) bool) {
		for d := 1; d <= depth; d++ {
			histories(alpha, d, func(o []model.Op) bool { return emit(trace{Ops: o}) })
		}
		// endings: the life of a machine around exhaustion, deleted and created again
		ikE, ikAE := ikOf(sp, mDend), ikOf(sp, mAend)
		small := []model.Op{opCreate(mD0), opCreate(mD0b), {Fn: "next", IK: ikD}, {Fn: "delete", IK: ikD}, {Fn: "mac", IK: ikD, A: "4012345678909D98", B: "request"}}
		for d := 1; d <= depth+3; d++ {
			histories(small, d, func(o []model.Op) bool { return emit(trace{Ops: o}) })
		}
		endAlpha := []model.Op{opCreate(mDend), opCreate(mAend), {Fn: "next", IK: ikE}, {Fn: "next", IK: ikAE}, {Fn: "delete", IK: ikE},
			{Fn: "encdata", IK: ikE, A: "4012345678909D98", B: "request"}, {Fn: "get", IK: ikAE}}
		for d := 1; d <= depth+1; d++ {
			histories(endAlpha, d, func(o []model.Op) bool { return emit(trace{Ops: o}) })
		}
		// long runs: counters of low weight and around every byte boundary, then many steps
		long := func(b server.BaseKey, n int) bool {
			ops := []model.Op{opCreate(b)}
			ik := ikOf(sp, b)
			for i := 0; i < n; i++ {
				ops = append(ops, model.Op{Fn: "next", IK: ik})
				if i%3 == 0 {
					ops = append(ops, model.Op{Fn: "encdata", IK: ik, A: "4012345678909D98", B: "request"})
				}
			}
			return emit(trace{Ops: ops})
		}
		for i := 0; i < 21; i++ {
			for j := 0; j <= i; j++ {
				for _, c := range []uint32{1<<i | 1<<j, 1<<i - 1, 1<<21 - 1<<j} {
					long(desBase(fmt.Sprintf("FFFF98765432%08X", 0x10E00000|c&0x1FFFFF)), 3)
				}
			}
		}
		for i := 0; i < 32; i++ {
			for j := 0; j <= i; j++ {
				for _, c := range []uint32{1<<i | 1<<j, 1<<i - 1, -(1 << j)} {
					long(aesBase(128, fmt.Sprintf("1234567890123456%08X", c)), 3)
				}
			}
		}
		n := 3000
		if r.Thorough {
			n = 60000
		}
		long(mD0, n)
		long(mA0, n)
		long(mA256, n/2)
		long(mDend2, 40)
		long(mAend1, 40)
		repeatTraces(sp, pickN(r, 5000, 1100), func(ops []model.Op) bool { return emit(trace{Ops: ops}) })
		for _, n := range []int{5, 20, 70, 300} {
			emit(trace{Ops: population(sp, n), Every: true})
		}
		emit(trace{Ops: population(sp, pickN(r, 8000, 1500))})
		emit(trace{Crowd: pickN(r, 1000000, 180000), Ops: []model.Op{{Fn: "list"}}})
		fillTraces(sp, depth-2, emit)
		nearTraces(sp, func(ops []model.Op) bool { return emit(trace{Ops: ops, Every: true}) }, func(string) bool { return true })
		argTraces(sp, pick(r, []int{0, 1, 2, 7}, []int{0, 2}), emit)
		all := func(string) bool { return true }
		litTraces(sp, func(ops []model.Op) bool { return emit(trace{Ops: ops, Every: true}) }, all, all)
		for _, n := range core.Lit().Sizes(pickN(r, 1000, 260)) {
			if n > 0 {
				emit(trace{Ops: population(sp, n), Every: n < 40})
				long(mD0, n)
			}
		}
	})
	if crowdCut.Load() {
		r.Partial("the large population takes too long")
	}
	// a repository that fails: an answer of success or failure agrees with what is stored
	r.Set("fault_rule", "the n-th repository call fails, for every n that occurs")
	faultRuns(r, func(sp *model.Spec, f faultTrace) (int, error) { return judgeFault21(sp, f) })
}

// faultRepo lets the n-th call fail.
type faultRepo struct {
	inner server.Repository
	n     int
	at    int
	hit   bool
	on    bool
}

var errFault = errors.New("injected repository failure")

func (f *faultRepo) fail() bool {
	if !f.on {
		return false
	}
	f.n++
	if f.n-1 == f.at {
		f.hit = true
		return true
	}
	return false
}

func (f *faultRepo) StoreMachine(m *server.Machine) error {
	if f.fail() {
		return errFault
	}
	return f.inner.StoreMachine(m)
}
func (f *faultRepo) FindMachine(ik string) (*server.Machine, error) {
	if f.fail() {
		return nil, errFault
	}
	return f.inner.FindMachine(ik)
}
func (f *faultRepo) FindAllMachines() []*server.Machine { return f.inner.FindAllMachines() }
func (f *faultRepo) DeleteMachine(ik string) error {
	if f.fail() {
		return errFault
	}
	return f.inner.DeleteMachine(ik)
}

type faultTrace struct {
	Ops []model.Op
	At  int
}

func (f *faultRepo) stored() (out []string) {
	on := f.on
	f.on = false
	out = model.List(server.NewService(f.inner))
	f.on = on
	return
}

// judgeFault runs the ops; hit says whether the faulty call was reached.
func judgeFault(f faultTrace, check func(op model.Op, res model.Res, before, after string, hit bool) error) (steps int, hit bool, err error) {
	repo := &faultRepo{inner: server.NewRepositoryInMemory(nil), at: f.At, on: true}
	svc := server.NewService(repo)
	before := ""
	for i, op := range f.Ops {
		was := repo.hit
		res := model.Exec(svc, op)
		steps++
		var after string
		if err := safely(func() error { after = strings.Join(repo.stored(), ";"); return nil }); err != nil {
			return steps, repo.hit, err
		}
		if err := check(op, res, before, after, repo.hit && !was); err != nil {
			return steps, repo.hit, fmt.Errorf("repository call %d fails, step %d of [%s]: %v", f.At, i, trace{Ops: f.Ops}, err)
		}
		before = after
	}
	return steps, repo.hit, nil
}

func judgeFault21(sp *model.Spec, f faultTrace) (int, error) {
	s := model.NewState()
	steps, _, err := judgeFault(f, func(op model.Op, res model.Res, _, after string, hit bool) error {
		if res.Kind == "panic" {
			return fmt.Errorf("%s: %s", op, res)
		}
		if !hit {
			if err := sp.Step(s, op).Check(res); err != nil {
				return fmt.Errorf("%s: %v", op, err)
			}
		} else if res.Kind != "error" {
			if err := sp.Step(s, op).Check(res); err != nil {
				return fmt.Errorf("%s succeeded although the repository failed, and %v", op, err)
			}
		}
		if after != s.Key() {
			return fmt.Errorf("%s answered %s, then the repository holds [%s], want [%s]", op, res, after, s.Key())
		}
		return nil
	})
	return steps, err
}

func judgeFault22(_ *model.Spec, f faultTrace) (int, error) {
	steps, _, err := judgeFault(f, func(op model.Op, res model.Res, before, after string, _ bool) error {
		if res.Kind == "error" && before != after {
			return fmt.Errorf("%s failed (%s) but changed what is stored from [%s] to [%s]", op, res, before, after)
		}
		return nil
	})
	return steps, err
}

func replayFault(j func(*model.Spec, faultTrace) (int, error)) func(*core.Run, json.RawMessage) error {
	return func(_ *core.Run, data json.RawMessage) error {
		var f faultTrace
		if err := json.Unmarshal(data, &f); err != nil {
			return err
		}
		_, err := j(model.NewSpec(), f)
		return err
	}
}

var replayFault21, replayFault22 = replayFault(judgeFault21), replayFault(judgeFault22)

func faultRuns(r *core.Run, judge func(*model.Spec, faultTrace) (int, error)) {
	sp := model.NewSpec()
	specs := make([]*model.Spec, r.Workers)
	for i := range specs {
		specs[i] = model.NewSpec()
	}
	ikD, ikA := ikOf(sp, mD0), ikOf(sp, mAend)
	alpha := []model.Op{opCreate(mD0), opCreate(mAend), {Fn: "next", IK: ikD}, {Fn: "next", IK: ikA}, {Fn: "delete", IK: ikD},
		{Fn: "encdata", IK: ikD, A: "4012345678909D98", B: "request"}, {Fn: "get", IK: ikA}}
	depth := 4
	if r.Thorough {
		depth = 6
	}
	core.Feed(r, func(emit func(faultTrace) bool) {
		for d := 1; d <= depth; d++ {
			histories(alpha, d, func(o []model.Op) bool {
				// at most two repository calls are made per operation today; a few more positions cost little
				for at := 0; at < 2*d+2; at++ {
					if !emit(faultTrace{o, at}) {
						return false
					}
				}
				return true
			})
		}
	}, func(w int, f faultTrace) {
		r.Busy(w, "fault", "faulty repository", f)
		steps, err := judge(specs[w], f)
		r.Eval(int64(steps))
		r.Count("fault_runs", 1)
		if err != nil {
			r.Violate("fault", "fault:"+fmt.Sprint(f.At)+":"+trace{Ops: f.Ops}.String(), err.Error(), f)
		}
	})
}

// ---- C22 ----

// An edit history: service operations and what the client does with records it holds. Fn "scribble" overwrites every
// field of every record held; "again" passes the record of the first creation of Base, as it is now except for the
// base key, to create once more; "drop" edits the slice returned by the last list.
type edits struct{ Ops []model.Op }

type heldRec struct {
	m    *server.Machine
	snap server.Machine
	from string
}

type client struct {
	svc  server.Service
	held []heldRec
	last []*server.Machine
	made map[server.BaseKey]*server.Machine
}

func (c *client) hold(m *server.Machine, from string) {
	if m == nil {
		return
	}
	for i := range c.held {
		if c.held[i].m == m {
			c.held[i].snap = *m
			return
		}
	}
	c.held = append(c.held, heldRec{m, *m, from})
}

// do is like model.Exec but keeps every record.
func (c *client) do(op model.Op) (res model.Res) {
	defer func() {
		if p := recover(); p != nil {
			res = model.Res{Kind: "panic", S: fmt.Sprint(p)}
		}
	}()
	rec := func(m *server.Machine, err error) model.Res {
		if err != nil {
			return model.Res{Kind: "error", S: err.Error()}
		}
		c.hold(m, op.String())
		return model.Res{Kind: "record", S: model.Canon(m)}
	}
	switch op.Fn {
	case "create", "again":
		m := c.made[op.Base]
		if m == nil || op.Fn == "create" {
			m = model.Filled(op)
		} else {
			m.BaseKey, m.CreatedAt = op.Base, model.Filled(op).CreatedAt
		}
		if c.made[op.Base] == nil {
			c.made[op.Base] = m
		}
		err := c.svc.CreateMachine(m)
		if err != nil {
			// what a refused record looks like is left open
			c.hold(m, op.String())
			return model.Res{Kind: "error", S: err.Error()}
		}
		return rec(m, nil)
	case "get":
		return rec(c.svc.GetMachine(op.IK))
	case "next":
		return rec(c.svc.MakeNextKSN(op.IK))
	case "list":
		c.last = c.svc.GetMachines()
		for _, m := range c.last {
			c.hold(m, "list()")
		}
		return model.Res{Kind: "list"}
	case "drop":
		for i := range c.last {
			c.last[i] = nil
		}
		return model.Res{Kind: "ok"}
	case "scribble":
		for i := range c.held {
			h := &c.held[i]
			h.m.Algorithm, h.m.AlgorithmKey = "aes", "scribbled"
			h.m.BaseDerivativeKey, h.m.KeySerialNumber = "00", "FFFFFFFFFFFFFFFFFFFF"
			h.m.InitialKey, h.m.CurrentKSN, h.m.TransactionKey = absentIK, "FFFF0123456789E00123", "000102030405060708090A0B0C0D0E0F"
			h.m.CreatedAt = time.Unix(77, 0)
			h.snap = *h.m
		}
		return model.Res{Kind: "ok"}
	}
	return model.Exec(c.svc, op)
}

func newClient() *client {
	return &client{svc: server.NewService(server.NewRepositoryInMemory(nil)), made: map[server.BaseKey]*server.Machine{}}
}

// judgeEdits compares the service with a twin that sees the same calls with fresh records and no edits.
func judgeEdits(e edits) (steps int, err error) {
	c, twin := newClient(), newClient()
	t := trace{Ops: e.Ops}
	list := func(s server.Service) string { return strings.Join(model.List(s), ";") }
	times := func() string { // the creation times, which the twin may hold differently
		var o []string
		for _, m := range c.svc.GetMachines() {
			o = append(o, m.InitialKey+m.CreatedAt.String())
		}
		sort.Strings(o)
		return strings.Join(o, ";")
	}
	before, timesBefore := "", ""
	for i, op := range e.Ops {
		res := c.do(op)
		steps++
		if res.Kind == "panic" {
			return steps, nil // crashes are another property's
		}
		var after, timesAfter string
		if err := safely(func() error { after, timesAfter = list(c.svc), times(); return nil }); err != nil {
			return steps, fmt.Errorf("step %d of [%s]: listing fails: %v", i, t, err)
		}
		if res.Kind == "error" && after != before {
			return steps, fmt.Errorf("step %d of [%s]: %s failed but changed what is stored from [%s] to [%s]", i, t, op, before, after)
		}
		if (res.Kind == "error" || op.Fn == "scribble") && timesAfter != timesBefore {
			return steps, fmt.Errorf("step %d of [%s]: %s changed the creation times stored from [%s] to [%s]", i, t, op, timesBefore, timesAfter)
		}
		timesBefore = timesAfter
		for _, h := range c.held {
			if *h.m != h.snap {
				return steps, fmt.Errorf("step %d of [%s]: the record from %s changed from %s to %s", i, t, h.from, model.Canon(&h.snap), model.Canon(h.m))
			}
		}
		switch op.Fn {
		case "scribble", "drop":
			if after != before {
				return steps, fmt.Errorf("step %d of [%s]: editing records changed what is stored from [%s] to [%s]", i, t, before, after)
			}
		default:
			top := op
			if op.Fn == "again" {
				top.Fn = "create"
			}
			tres := model.Exec(twin.svc, top)
			if tl := list(twin.svc); tl != after {
				return steps, fmt.Errorf("step %d of [%s]: the service holds [%s], without the edits it would hold [%s]", i, t, after, tl)
			}
			if op.Fn != "encpin" && op.Fn != "list" && tres.Kind != "panic" && (tres.Kind != res.Kind || tres.Kind != "error" && tres.S != res.S) {
				return steps, fmt.Errorf("step %d of [%s]: %s answers %s, without the edits %s", i, t, op, res, tres)
			}
		}
		before = after
	}
	return steps, nil
}

func replayEdits(_ *core.Run, data json.RawMessage) error {
	var e edits
	if err := json.Unmarshal(data, &e); err != nil {
		return err
	}
	_, err := judgeEdits(e)
	return err
}

func runC22(r *core.Run) {
	r.Rule("a case is one history of service calls and client edits (scribbling over every field of every record held, passing a used record to create again, clearing a returned slice) on a fresh service; " +
		"after every step the stored machines are compared with those of a twin service that sees no edits and with those before a failed call, and every record held with its snapshot; " +
		"evaluations counts steps, distinct_nontrivial histories; further histories run with a repository whose n-th call fails, for every n")
	sp := model.NewSpec()
	ikD, ikA, ikE, ikM := ikOf(sp, mD0), ikOf(sp, mA0), ikOf(sp, mAend), ikOf(sp, mMismatch)
	again := func(b server.BaseKey) model.Op { return model.Op{Fn: "again", Base: b} }
	alphas := [][]model.Op{
		{opCreate(mD0), opCreate(mD0b), again(mD0), again(mD0b), {Fn: "next", IK: ikD}, {Fn: "get", IK: ikD}, {Fn: "list"}, {Fn: "scribble"}, {Fn: "drop"},
			{Fn: "delete", IK: ikD}, {Fn: "encdata", IK: ikD, A: "4012345678909D98", B: "request"}, {Fn: "mac", IK: ikD, A: "4012345678909D98", B: "response"}},
		{opCreate(mA0), again(mA0), opCreate(mDend), {Fn: "next", IK: ikA}, {Fn: "next", IK: ikOf(sp, mDend)}, {Fn: "get", IK: ikA}, {Fn: "list"}, {Fn: "scribble"},
			{Fn: "delete", IK: ikA}, {Fn: "mac", IK: ikA, A: "4012345678909D98", B: "request", C: "hmac"}, {Fn: "decdata", IK: ikA, A: "zz", B: "request"}},
		{opCreate(mAend), again(mAend), {Fn: "next", IK: ikE}, {Fn: "scribble"}, {Fn: "get", IK: ikE}, opCreate(badBases[3]), again(badBases[3]), again(badBases[10]),
			{Fn: "createnil"}, {Fn: "encpin", IK: ikE, A: "12", B: "4012345678909"}},
		{opCreate(mMismatch), opCreate(mHmac), {Fn: "next", IK: ikM}, {Fn: "encpin", IK: ikM, A: "1234", B: "4012345678909"}, {Fn: "encdata", IK: ikM, A: "data", B: "request"},
			{Fn: "scribble"}, {Fn: "list"}, {Fn: "mac", IK: ikM, A: "data", B: "request", C: "cmac"}},
	}
	at := func(o model.Op, t string) model.Op { o.A = t; return o }
	alphas = append(alphas, []model.Op{opCreate(mD0), at(opCreate(mD0), "old"), at(opCreate(mD0b), "future"), at(again(mD0), "future"), again(mD0b), {Fn: "next", IK: ikD}, {Fn: "get", IK: ikD}, {Fn: "scribble"},
		{Fn: "delete", IK: ikD}, at(opCreate(mA0), "old")})
	depth := 5
	if r.Thorough {
		depth = 6
	}
	n := 0
	core.Feed(r, func(emit func(edits) bool) {
		// many machines at once
		scribble := model.Op{Fn: "scribble"}
		for _, n := range []int{20, 120, pickN(r, 1200, 300)} {
			ops := []model.Op{}
			for i, o := range population(sp, n) {
				ops = append(ops, o)
				if o.Fn == "list" || i%67 == 66 {
					ops = append(ops, scribble, model.Op{Fn: "drop"})
				}
			}
			emit(edits{append(ops, scribble, model.Op{Fn: "list"}, scribble, model.Op{Fn: "list"}, model.Op{Fn: "drop"})})
		}
		for _, a := range alphas {
			for d := 1; d <= depth; d++ {
				histories(a, d, func(o []model.Op) bool {
					if n%60013 == 7 {
						r.Sample(trace{Ops: o}.String())
					}
					n++
					return emit(edits{o})
				})
			}
		}
		// every failing operation after every short history
		for _, b := range []server.BaseKey{mD0, mA0, mAend, mDend, mA192, mA256, mHmac, mMismatch} {
			ik := ikOf(sp, b)
			var fails []model.Op
			fails = append(fails, badOpsFor(ik, b.Algorithm)...)
			fails = append(fails, opsFor(absentIK, b.Algorithm)...)
			fails = append(fails, opCreate(b), again(b), model.Op{Fn: "next", IK: ik}, model.Op{Fn: "createnil"})
			for _, x := range badBases {
				fails = append(fails, opCreate(x))
			}
			for k := 0; k < 4; k++ {
				var pre []model.Op
				pre = append(pre, opCreate(b))
				for i := 0; i < k; i++ {
					pre = append(pre, model.Op{Fn: "next", IK: ik})
				}
				for _, f := range fails {
					for _, g := range fails {
						emit(edits{append(append([]model.Op{}, pre...), f, model.Op{Fn: "scribble"}, g, model.Op{Fn: "get", IK: ik})})
					}
				}
			}
		}
	}, func(w int, e edits) {
		r.Busy(w, "edits", "edit history", e)
		steps, err := judgeEdits(e)
		r.Eval(int64(steps))
		r.Distinct(core.Hash([]byte(trace{Ops: e.Ops}.String())))
		if err != nil {
			r.Violate("edits", "edits:"+trace{Ops: e.Ops}.String(), err.Error(), e)
		}
	})
	faultRuns(r, judgeFault22)
}
