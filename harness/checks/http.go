package checks

import (
	"bytes"
	"crypto/tls"
	"encoding/hex"
	"encoding/json"
	"errors"
	"fmt"
	"io"
	"net/http"
	"net/url"
	"strconv"
	"strings"
	"sync"
	"testing/iotest"
	"unicode/utf8"

	"github.com/moov-io/base"
	"github.com/moov-io/dukpt/pkg/server"

	"verif.local/h/core"
	"verif.local/h/model"
	"verif.local/h/rest"
)

func init() {
	core.Register(&core.Check{ID: "C24", Level: "model_checking", Run: runC24,
		Assume: []string{"the handler is a function of the requests made on it: each transition is taken on a fresh handler and service"},
		Replay: map[string]func(*core.Run, json.RawMessage) error{"trace": replayTrace(judgeC24)}})
	core.Register(&core.Check{ID: "C25", Level: "exploration", Run: runC25,
		Replay: map[string]func(*core.Run, json.RawMessage) error{"trace": replayTrace(judgeC25), "stub": replayStub, "raw": replayRaw(judgeReason)}})
	core.Register(&core.Check{ID: "C26", Level: "exploration", Run: runC26,
		Replay: map[string]func(*core.Run, json.RawMessage) error{"raw": replayRaw(judgeC26)}})
}

func wantsError(e model.Exp) bool {
	return e.Kind == "error" || e.Kind == "notfound" || e.Kind == "exists" || e.Kind == "want" && e.W.Kind == "error"
}

func judgeC24(sp *model.Spec, t trace) (int, error) {
	return play(sp, t, true, func(op model.Op, exp model.Exp, res model.Res, a rest.Answer) error {
		if wantsError(exp) { // how failures are reported is C25
			return nil
		}
		if err := exp.Check(res); err != nil {
			return fmt.Errorf("%s: %v", op, err)
		}
		if a.Code != 0 && !rest.IsJSON(a) {
			return fmt.Errorf("%s: the answer is labelled %q", op, a.Header.Values("Content-Type"))
		}
		return nil
	})
}

func judgeC25(sp *model.Spec, t trace) (int, error) {
	return play(sp, t, false, func(op model.Op, exp model.Exp, res model.Res, a rest.Answer) error {
		if op.Fn == "delete" || op.Fn == "createnil" || a.Panic != "" {
			return nil
		}
		fail := func(s string) error { return fmt.Errorf("%s: %s, answered %s", op, s, a) }
		reason, object := rest.ErrorOf(a)
		ok2 := a.Code >= 200 && a.Code <= 299
		switch {
		case !ok2 && (!object || reason == ""):
			return fail("a failure without a reason in a JSON body")
		case !ok2 && !rest.IsJSON(a):
			return fail(fmt.Sprintf("a failure labelled %q", a.Header.Values("Content-Type")))
		case ok2 && (a.Code != http.StatusOK || reason != "" || !object):
			return fail("neither a plain success nor a failure")
		case wantsError(exp) && ok2:
			return fail("the operation must fail (" + exp.String() + ")")
		case exp.Kind == "notfound" && a.Code != http.StatusNotFound:
			return fail("an unknown machine must be 404")
		case exp.Kind == "exists" && a.Code != http.StatusBadRequest:
			return fail("a duplicate creation must be 400")
		}
		return nil
	})
}

// httpOps are well-formed requests on one machine, every parameter distinguishable from the others.
func httpOps(ik, alg string) []model.Op {
	var o []model.Op
	for _, x := range opsFor(ik, alg) {
		if x.Fn != "delete" {
			o = append(o, x)
		}
	}
	return o
}

var oddTexts = []string{"", " ", "a", "\x00\x01\x1f", "\"quoted\\\"", "<script>&amp;</script>", "grüße 😀 \u2028", "1234567", "12345678", "123456789012345",
	"1234567890123456", "null", "{}", "4012345678909D987\n", strings.Repeat("x", 5000)}

// hugeTexts go beyond the limits that servers are tempted to set.
var hugeTexts = []int{1<<16 - 1, 1<<16 + 1, 1 << 17, 1 << 19, 1<<20 - 1, 1<<20 + 1, 1<<21 + 3, 1 << 22, 10<<20 + 1, 33 << 20}

func runC24(r *core.Run) {
	sp := model.NewSpec()
	r.Set("rule_of_traces", "states and transitions are those of the specification of the service, every operation but deletion taken as an HTTP request on a fresh handler; "+
		"the JSON answer of every request of the trace and everything the service then holds are compared; besides, all request sequences of the stated length, and every request in every way of writing it")
	var states, trans int64
	runTraces(r, "trace", judgeC24, func(emit func(trace) bool) {
		for _, u := range svcUniverses(r) {
			if u.depth > 6 {
				u.depth -= 2
			}
			s, t := bfs(sp, u, func(ops []model.Op) bool {
				if ops[len(ops)-1].Fn == "createnil" {
					return true
				}
				return emit(trace{HTTP: true, Ops: ops})
			})
			states += s
			trans += t
		}
	})
	r.Set("states", states)
	r.Set("transitions", trans)
	ikD, ikA, ikAE := ikOf(sp, mD0), ikOf(sp, mA0), ikOf(sp, mAend)
	alpha := []model.Op{opCreate(mD0), opCreate(mD0b), opCreate(mA0), {Fn: "next", IK: ikD}, {Fn: "next", IK: ikA}, {Fn: "get", IK: ikD}, {Fn: "list"},
		{Fn: "encpin", IK: ikD, A: "1234", B: "4012345678909"}, {Fn: "decpin", IK: ikD, A: "0011223344556677", B: "4012345678909", C: "ISO-2"},
		{Fn: "mac", IK: ikA, A: "4012345678909D98", B: "response", C: "hmac"}, {Fn: "encdata", IK: ikA, A: "4012345678909D98", B: "response", C: "0102"},
		{Fn: "decdata", IK: ikD, A: "00112233445566778899aabbccddeeff", B: "request", C: "01"}, {Fn: "next", IK: absentIK}}
	depth := 4
	if r.Thorough {
		depth = 5
	}
	runTraces(r, "trace", judgeC24, func(emit func(trace) bool) {
		repeatTraces(sp, pickN(r, 3000, 300), func(ops []model.Op) bool {
			for _, o := range ops {
				if o.Fn == "delete" {
					return true
				}
			}
			return emit(trace{HTTP: true, Ops: ops})
		})
		nearTraces(sp, func(ops []model.Op) bool {
			return ops[2].Fn == "delete" || emit(trace{HTTP: true, Ops: ops, Every: true})
		}, model.InPath)
		litTraces(sp, func(ops []model.Op) bool {
			return ops[len(ops)-1].Fn == "delete" || emit(trace{HTTP: true, Ops: ops, Every: true})
		}, model.InPath, utf8.ValidString)
		argTraces(sp, pick(r, []int{0, 1, 5}, []int{1}), func(t trace) bool {
			t.HTTP = true
			// JSON cannot carry other strings
			return !utf8.ValidString(t.Ops[len(t.Ops)-1].A) || emit(t)
		})
		for d := 1; d <= depth; d++ {
			histories(alpha, d, func(o []model.Op) bool { return emit(trace{HTTP: true, Ops: o}) })
		}
		small := []model.Op{opCreate(mAend), {Fn: "next", IK: ikAE}, {Fn: "encdata", IK: ikAE, A: "x", B: "request"}, {Fn: "mac", IK: ikAE, A: "y", B: "request", C: "cmac"}}
		for d := 1; d <= depth+2; d++ {
			histories(small, d, func(o []model.Op) bool { return emit(trace{HTTP: true, Ops: o}) })
		}
		for _, b := range []server.BaseKey{mD0, mA0, mA192, mA256, mDshort, mDlower} {
			ik := ikOf(sp, b)
			pre := []model.Op{opCreate(b), {Fn: "next", IK: ik}}
			one := func(shape int, o ...model.Op) {
				emit(trace{HTTP: true, Shape: shape, Every: true, Ops: append(append([]model.Op{}, pre...), o...)})
			}
			for shape := 0; shape < rest.Shapes; shape++ {
				one(shape, opCreate(with(b, func(x *server.BaseKey) { x.KeySerialNumber = "9" + x.KeySerialNumber[1:] })), model.Op{Fn: "list"})
				for _, x := range httpOps(ik, b.Algorithm) {
					one(shape, x)
					for _, y := range httpOps(ik, b.Algorithm) {
						one(shape, x, y)
					}
				}
				if shape == 11 {
					for _, x := range [][3]string{{"", "", ""}, {"x", "", ""}, {"", "request", ""}, {"", "", "0102"}, {"1234", "", ""}, {"", "4012345678909", ""}, {"", "", "ISO-1"}, {"1234", "4012345678909", ""}, {"4012345678909D98", "request", ""}} {
						for _, fn := range []string{"encpin", "decpin", "mac", "encdata", "decdata"} {
							for _, y := range httpOps(ik, b.Algorithm) {
								for m := range rest.Mixed {
									one(rest.Shapes+m, y, model.Op{Fn: fn, IK: ik, A: x[0], B: x[1], C: x[2]})
									one(rest.Shapes+m, y, y, model.Op{Fn: fn, IK: ik, A: x[0], B: x[1], C: x[2]})
								}
							}
						}
					}
					for m := range rest.Mixed {
						for _, f := range []func(x *server.BaseKey){func(x *server.BaseKey) { x.Algorithm = "" }, func(x *server.BaseKey) { x.AlgorithmKey = "" }, func(x *server.BaseKey) { x.BaseDerivativeKey = "" }, func(x *server.BaseKey) { x.KeySerialNumber = "" }} {
							for _, o := range []server.BaseKey{mD0, mA0, mA192, mA256, mHmac} {
								one(rest.Shapes+m, opCreate(o), opCreate(with(o, f)), model.Op{Fn: "list"})
								one(rest.Shapes+m, opCreate(o), opCreate(o), opCreate(with(o, f)), model.Op{Fn: "list"})
							}
						}
						for _, x := range httpOps(ik, b.Algorithm) {
							for _, y := range httpOps(ik, b.Algorithm) {
								one(rest.Shapes+m, x, y)
								one(rest.Shapes+m, x, y, x)
							}
						}
					}
				}
				for _, n := range hugeTexts {
					if n < 1<<20 || shape == 0 || shape < 3 && n < 1<<22 {
						one(shape, model.Op{Fn: "mac", IK: ik, A: strings.Repeat("x", n), B: "request", C: "cmac"})
						one(shape, model.Op{Fn: "encdata", IK: ik, A: strings.Repeat("y", n), B: "response"})
						one(shape, model.Op{Fn: "decdata", IK: ik, A: strings.Repeat("a7", n/32*16), B: "response"})
					}
				}
				for _, s := range oddTexts {
					for _, act := range []string{"request", "response", "", "Response", "REQUEST", "x"} {
						for _, mt := range []string{"cmac", "hmac", "CMAC", ""} {
							one(shape, model.Op{Fn: "mac", IK: ik, A: s, B: act, C: mt})
						}
						for _, iv := range []string{"", "00", "0102030405060708", "0102030405060708090a0b0c0d0e0f10", "0102030405060708090A0B0C0D0E0F101112"} {
							one(shape, model.Op{Fn: "encdata", IK: ik, A: s, B: act, C: iv})
						}
					}
				}
				for _, f := range []string{"", "ISO-0", "iso-1", "ISO-2", "ISO-3", "ISO-4", "ANSI", "ECI1", "ECI2", "ECI3", "ECI4", "VISA1", "VISA2", "VISA3", "VISA4", "none"} {
					for n := 4; n <= 12; n++ {
						for _, pan := range []string{"4012345678909", "401234567890987", "4012345678909876", "4012345678909876543"} {
							one(shape, model.Op{Fn: "encpin", IK: ik, A: "123456789012"[:n], B: pan, C: f})
						}
					}
				}
			}
		}
	})
}

func runC25(r *core.Run) {
	r.Rule("a case is one HTTP request in a reached state; states are those of the specification within the depth, requests cover every kind of failure of every route; " +
		"malformed bodies and services that answer any kind of error are enumerated besides; distinct_nontrivial counts distinct traces, stub cases and raw requests")
	sp := model.NewSpec()
	distinct := func(emit func(trace) bool) func(trace) bool {
		return func(t trace) bool { r.DistinctN(1); return emit(t) }
	}
	runTraces(r, "trace", judgeC25, func(e func(trace) bool) {
		emit := distinct(e)
		argTraces(sp, pick(r, []int{0, 1, 5}, []int{0}), func(t trace) bool {
			t.HTTP = true
			// JSON cannot carry other strings
			return !utf8.ValidString(t.Ops[len(t.Ops)-1].A) || emit(t)
		})
		litTraces(sp, func(ops []model.Op) bool {
			return ops[len(ops)-1].Fn == "delete" || emit(trace{HTTP: true, Ops: ops})
		}, model.InPath, utf8.ValidString)
		nearTraces(sp, func(ops []model.Op) bool {
			if ops[2].Fn == "delete" {
				return true
			}
			for shape := 0; shape < rest.Shapes; shape++ {
				if !emit(trace{HTTP: true, Shape: shape, Ops: ops}) {
					return false
				}
			}
			return true
		}, model.InPath)
		for _, u := range svcUniverses(r) {
			if u.depth > 6 {
				u.depth -= 2
			}
			bfs(sp, u, func(ops []model.Op) bool {
				if f := ops[len(ops)-1].Fn; f == "createnil" || f == "delete" {
					return true
				}
				return emit(trace{HTTP: true, Ops: ops})
			})
			// the same in every way of writing the requests, to a smaller depth
			u.depth = pickN(r, 4, 2)
			bfs(sp, u, func(ops []model.Op) bool {
				if f := ops[len(ops)-1].Fn; f == "createnil" || f == "delete" {
					return true
				}
				for shape := 1; shape < rest.Shapes+len(rest.Mixed); shape++ {
					if !emit(trace{HTTP: true, Shape: shape, Ops: ops}) {
						return false
					}
				}
				return true
			})
		}
	})
	stubRuns(r)
	rawRuns(r, judgeReason, func(q raw) bool {
		known, method := routeOf(q.Path)
		return known == 1 && q.Method == method && q.BodyErr == 0
	})
}

// ---- services answering errors of every kind ----

type stubSvc struct{ err error }

func (s stubSvc) CreateMachine(*server.Machine) error                       { return s.err }
func (s stubSvc) GetMachine(string) (*server.Machine, error)                { return nil, s.err }
func (s stubSvc) GetMachines() []*server.Machine                            { return nil }
func (s stubSvc) MakeNextKSN(string) (*server.Machine, error)               { return nil, s.err }
func (s stubSvc) DeleteMachine(string) error                                { return s.err }
func (s stubSvc) EncryptPin(string, string, string, string) (string, error) { return "", s.err }
func (s stubSvc) DecryptPin(string, string, string, string) (string, error) { return "", s.err }
func (s stubSvc) GenerateMac(string, string, string, string) (string, error) {
	return "", s.err
}
func (s stubSvc) EncryptData(string, string, string, string) (string, error) { return "", s.err }
func (s stubSvc) DecryptData(string, string, string, string) (string, error) { return "", s.err }

type customErr struct{ A, B string }

func (c customErr) Error() string   { return c.A + c.B }
func (c *customErr) String() string { return "not the reason" }

type marshalErr struct{ customErr }

func (m *marshalErr) Error() string { return m.A }

// MarshalJSON makes the error look harmless to an encoder that does not ask for its text.
func (m *marshalErr) MarshalJSON() ([]byte, error) { return []byte(`""`), nil }

type stubErr struct {
	err  error
	code int // 0: any failure
}

var stubErrs = []stubErr{
	{server.ErrNotFound, 404}, {fmt.Errorf("a: %w", server.ErrNotFound), 404}, {fmt.Errorf("a: %w(b)", fmt.Errorf("c %w", server.ErrNotFound)), 404},
	{errors.Join(errors.New("x"), server.ErrNotFound), 404},
	{server.ErrAlreadyExists, 400}, {fmt.Errorf("a: %w", server.ErrAlreadyExists), 400},
	{errors.New("boom"), 0}, {customErr{"a", "b"}, 0}, {&marshalErr{customErr{"reason", ""}}, 0}, {base.ErrorList{errors.New("one"), errors.New("two")}, 0},
	{errors.New("with \"quotes\" <&> \n and ünicode 😀"), 0}, {errors.New("not found"), 0}, {errors.New("200 OK"), 0}, {io.EOF, 0},
}

// errors with texts of every length around the powers of two and of odd contents, plain and with a known cause
func init() {
	for n := 1; n <= 1<<16; n *= 2 {
		for _, l := range []int{n - 1, n, n + 1} {
			if l > 0 {
				t := strings.Repeat("reason ", l/7+1)[:l-1] + "."
				stubErrs = append(stubErrs, stubErr{errors.New(t), 0}, stubErr{fmt.Errorf("%s: %w", t, server.ErrNotFound), 404}, stubErr{fmt.Errorf("%s: %w", t, server.ErrAlreadyExists), 400})
			}
		}
	}
	for _, t := range oddTexts {
		if strings.TrimSpace(t) != "" {
			stubErrs = append(stubErrs, stubErr{errors.New(t), 0})
		}
	}
	for b := 0x21; b < 0x7f; b++ {
		stubErrs = append(stubErrs, stubErr{errors.New(string(rune(b))), 0}, stubErr{errors.New("a " + string(rune(b)) + " b"), 0})
	}
}

type stubCase struct{ Op, Err, Shape int }

func judgeStub(c stubCase) error {
	litErrs()
	e := stubErrs[c.Err]
	h := server.MakeHTTPHandler(stubSvc{e.err})
	ops := stubOps()
	a := rest.Do(h, rest.Shape(rest.Request(ops[c.Op]), c.Shape))
	if a.Panic != "" {
		return nil
	}
	reason, object := rest.ErrorOf(a)
	if a.Code >= 200 && a.Code <= 299 || !object || !strings.Contains(reason, strings.TrimSpace(e.err.Error())) && reason != e.err.Error() {
		return fmt.Errorf("%s fails with %q and is answered %s", ops[c.Op], e.err, a)
	}
	if !rest.IsJSON(a) {
		return fmt.Errorf("%s fails with %q and the answer is labelled %q", ops[c.Op], e.err, a.Header.Values("Content-Type"))
	}
	if e.code != 0 && a.Code != e.code {
		return fmt.Errorf("%s fails with %q and is answered %d, want %d", ops[c.Op], e.err, a.Code, e.code)
	}
	return nil
}

func stubOps() (o []model.Op) {
	for _, x := range append(opsFor(absentIK, "aes"), opCreate(mD0)) {
		if x.Fn != "delete" && x.Fn != "list" {
			o = append(o, x)
		}
	}
	return
}

// litErrs are errors whose texts hold constants of the code, plain and with a known cause.
var litErrs = sync.OnceFunc(func() {
	for _, t := range core.Lit().Strings {
		if strings.TrimSpace(t) != "" && utf8.ValidString(t) {
			stubErrs = append(stubErrs, stubErr{errors.New(t), 0}, stubErr{fmt.Errorf("%s: %w", t, server.ErrNotFound), 404}, stubErr{fmt.Errorf("%w(%s)", server.ErrNotFound, t), 404},
				stubErr{fmt.Errorf("%s: %w", t, server.ErrAlreadyExists), 400}, stubErr{fmt.Errorf("%w(%s)", server.ErrAlreadyExists, t), 400})
		}
	}
})

func stubRuns(r *core.Run) {
	litErrs()
	n := len(stubOps())
	r.Parallel(n*len(stubErrs)*rest.Shapes, func(w, i int) {
		c := stubCase{i % n, i / n % len(stubErrs), i / n / len(stubErrs)}
		r.Eval(1)
		r.DistinctN(1)
		r.Count("stub_cases", 1)
		if err := judgeStub(c); err != nil {
			r.Violate("stub", fmt.Sprintf("stub:%d:%d:%d", c.Op, c.Err, c.Shape), err.Error(), c)
		}
	})
}

func replayStub(_ *core.Run, data json.RawMessage) error {
	var c stubCase
	if err := json.Unmarshal(data, &c); err != nil {
		return err
	}
	return judgeStub(c)
}

// ---- raw requests ----

// raw is one request as bytes; BodyErr-1 is the number of bytes after which reading the body fails.
type raw struct {
	Method, Path string
	Body         []byte
	NilBody      bool
	BodyErr      int
	Header       map[string]string
	More         [][2]string // further header lines
	Declared     string      // announced body length; the connection ends after Body ("chunked": none announced)
	Remote       string      // address of the client
	Proto        string
}

// origins are the values of all Origin lines.
func (q raw) origins() (o []string) {
	for k, v := range q.Header {
		if strings.EqualFold(k, "Origin") {
			o = append(o, v)
		}
	}
	for _, h := range q.More {
		if strings.EqualFold(h[0], "Origin") {
			o = append(o, h[1])
		}
	}
	return
}

func (q raw) String() string {
	b := string(q.Body)
	if len(b) > 200 {
		b = b[:200] + "..."
	}
	s := fmt.Sprintf("%s %s body %q", q.Method, q.Path, b)
	if q.BodyErr > 0 {
		s += fmt.Sprintf(" failing after %d bytes", q.BodyErr-1)
	}
	if q.Declared != "" {
		s += " announced as " + q.Declared
	}
	if q.Remote+q.Proto != "" {
		s += fmt.Sprintf(" from %q %s", q.Remote, q.Proto)
	}
	if len(q.Header) > 0 {
		s += fmt.Sprintf(" headers %q", q.Header)
	}
	if len(q.More) > 0 {
		s += fmt.Sprintf(" and %q", q.More)
	}
	return s
}

type failingReader struct {
	b []byte
}

func (f *failingReader) Read(p []byte) (int, error) {
	if len(f.b) == 0 {
		return 0, errors.New("injected read failure")
	}
	n := copy(p, f.b)
	f.b = f.b[n:]
	return n, nil
}

func (q raw) request() *http.Request {
	r := rest.New(q.Method, q.Path, q.Body)
	if q.NilBody {
		r.Body = http.NoBody
	}
	if q.BodyErr > 0 {
		r.Body = io.NopCloser(&failingReader{cp(q.Body[:q.BodyErr-1])})
	}
	switch q.Declared {
	case "":
	case "chunked":
		r.ContentLength, r.TransferEncoding = -1, []string{"chunked"}
	default:
		r.ContentLength, _ = strconv.ParseInt(q.Declared, 10, 64)
		r.Header.Set("Content-Length", q.Declared)
		r.Body = io.NopCloser(io.MultiReader(bytes.NewReader(cp(q.Body)), iotest.ErrReader(io.ErrUnexpectedEOF)))
	}
	if q.Remote != "" {
		r.RemoteAddr = strings.TrimPrefix(q.Remote, "=")
	}
	switch q.Proto {
	case "1.0":
		r.Proto, r.ProtoMinor, r.Host, r.Close = "HTTP/1.0", 0, "", true
	case "2.0":
		r.Proto, r.ProtoMajor, r.ProtoMinor = "HTTP/2.0", 2, 0
	case "tls":
		r.TLS = &tls.ConnectionState{}
	case "host":
		r.Host = "[::1%25eth0]:99999"
	case "nohost":
		r.Host = ""
	}
	for k, v := range q.Header {
		r.Header.Set(k, v)
	}
	for _, h := range q.More {
		r.Header.Add(h[0], h[1])
	}
	return r
}

// rawWorld is a handler over a service with two machines, rebuilt when a request changed it.
type rawWorld struct {
	h      http.Handler
	svc    server.Service
	before string
	fresh  bool
}

func (w *rawWorld) reset() {
	w.svc = server.NewService(server.NewRepositoryInMemory(nil))
	w.h = server.MakeHTTPHandler(w.svc)
	for _, b := range []server.BaseKey{mD0, mA0} {
		model.Exec(w.svc, opCreate(b))
	}
	w.before = w.list()
	w.fresh = true
}

func (w *rawWorld) list() string {
	var l string
	if err := safely(func() error { l = strings.Join(model.List(w.svc), ";"); return nil }); err != nil {
		l = err.Error()
	}
	return l
}

type rawJudge func(q raw, a rest.Answer, before, after string) error

// judgeC26: one complete response, no panic, no change unless 200, method and path answers, CORS.
func judgeC26(q raw, a rest.Answer, before, after string) error {
	fail := func(s string) error { return fmt.Errorf("%s: %s, answered %s", q, s, a) }
	if a.Panic != "" {
		return fail("the handler panicked or cut its answer off")
	}
	if a.Code < 200 || a.Code > 599 {
		return fail("no final status")
	}
	if strings.Contains(a.Header.Get("Content-Type"), "json") && q.Method != "HEAD" && a.Code != 204 && a.Code != 304 {
		d := json.NewDecoder(bytes.NewReader(a.Body))
		var v any
		if d.Decode(&v) != nil {
			return fail("the JSON body is incomplete")
		}
		if _, err := d.Token(); err != io.EOF {
			return fail("more than one JSON document")
		}
	}
	if a.Code != http.StatusOK && before != after {
		return fail("stored machines changed from [" + before + "] to [" + after + "]")
	}
	known, methods := routeOf(q.Path)
	switch {
	case q.Method == "OPTIONS":
		if a.Code != http.StatusOK && !(known < 0 && a.Code/100 == 3) {
			return fail("OPTIONS must be 200")
		}
	case (known == 0 || known == 1 && q.Method != methods) && a.Code != http.StatusMethodNotAllowed && a.Code != http.StatusNotFound:
		return fail("a path or method that no route has must be 404 or 405")
	}
	// With several Origin lines the answer may be about any of them, but only about an allowed one that was sent.
	allowed, all := map[string]bool{}, true
	for _, o := range q.origins() {
		if allowedOrigin(o) {
			allowed[o] = true
		} else {
			all = false
		}
	}
	echoed := a.Header.Values("Access-Control-Allow-Origin")
	for _, e := range echoed {
		if e != "" && !allowed[e] {
			return fail(fmt.Sprintf("an origin that is not allowed or was not sent got Access-Control-Allow-Origin %q", echoed))
		}
	}
	if a.Code == http.StatusOK && all && len(allowed) > 0 && (len(echoed) != 1 || echoed[0] == "") {
		return fail(fmt.Sprintf("the allowed origin is not echoed (got %q)", echoed))
	}
	if cl := a.Header.Values("Content-Length"); q.Method != "HEAD" && a.Code != 304 && (len(cl) > 1 || len(cl) == 1 && cl[0] != fmt.Sprint(len(a.Body))) {
		return fail(fmt.Sprintf("the body has %d bytes, announced are %q", len(a.Body), cl))
	}
	return nil
}

func allowedOrigin(o string) bool {
	return strings.HasPrefix(o, "http://localhost:") || strings.HasPrefix(o, "https://")
}

// judgeReason: a request that cannot be understood is reported as a failure with a reason (C25).
func judgeReason(q raw, a rest.Answer, _, _ string) error {
	known, method := routeOf(q.Path)
	if a.Panic != "" || known != 1 || method != q.Method {
		return nil
	}
	reason, object := rest.ErrorOf(a)
	ok2 := a.Code >= 200 && a.Code <= 299
	if q.Method == "GET" && !strings.HasPrefix(q.Path, "/machine/") {
		return nil // /ping answers text; listing cannot fail
	}
	takesBody := q.Method == "POST" && !strings.HasPrefix(q.Path, "/generate_ksn/")
	var m map[string]any
	bad := json.Unmarshal(q.Body, &m) != nil
	switch {
	case !ok2 && (!object || reason == ""):
		return fmt.Errorf("%s: a failure without a reason in a JSON body, answered %s", q, a)
	case !ok2 && !rest.IsJSON(a):
		return fmt.Errorf("%s: a failure labelled %q", q, a.Header.Values("Content-Type"))
	case ok2 && (a.Code != http.StatusOK || !object || reason != ""):
		return fmt.Errorf("%s: neither a plain success nor a failure, answered %s", q, a)
	case ok2 && takesBody && bad:
		return fmt.Errorf("%s: a body that is not a JSON object is answered %s", q, a)
	}
	return nil
}

// routeOf is 1 and the method for documented paths, 0 for paths no route can match, -1 for those left open (redirects
// of unclean paths).
func routeOf(path string) (int, string) {
	p, _, _ := strings.Cut(path, "?")
	if strings.Contains(p, "//") || strings.Contains(p, "/.") || strings.Contains(p, "%") || p == "" {
		return -1, ""
	}
	switch p {
	case "/ping", "/machines":
		return 1, "GET"
	case "/machine":
		return 1, "POST"
	}
	seg := strings.Split(p[1:], "/")
	if len(seg) == 2 && seg[1] != "" {
		switch seg[0] {
		case "machine":
			return 1, "GET"
		case "generate_ksn", "encrypt_pin", "decrypt_pin", "generate_mac", "encrypt_data", "decrypt_data":
			return 1, "POST"
		}
	}
	return 0, ""
}

func replayRaw(j rawJudge) func(*core.Run, json.RawMessage) error {
	return func(_ *core.Run, data json.RawMessage) error {
		var q raw
		if err := json.Unmarshal(data, &q); err != nil {
			return err
		}
		w := &rawWorld{}
		w.reset()
		a := rest.Do(w.h, q.request())
		return j(q, a, w.before, w.list())
	}
}

// rawRuns serves every enumerated request that passes the filter.
func rawRuns(r *core.Run, judge rawJudge, keep func(raw) bool) {
	ws := make([]*rawWorld, r.Workers)
	for i := range ws {
		ws[i] = &rawWorld{}
		ws[i].reset()
	}
	n := 0
	ts := tallies(r)
	core.Feed(r, func(emit func(raw) bool) {
		rawRequests(r, func(q raw) bool {
			if keep != nil && !keep(q) {
				return true
			}
			if n%20011 == 3 {
				r.Sample(q.String())
			}
			n++
			return emit(q)
		})
	}, func(w int, q raw) {
		x := ws[w]
		r.Busy(w, "raw", "request", q)
		a := rest.Do(x.h, q.request())
		after := x.list()
		err := judge(q, a, x.before, after)
		if err != nil { // confirm on a fresh service
			x.reset()
			a = rest.Do(x.h, q.request())
			after = x.list()
			if e2 := judge(q, a, x.before, after); e2 != nil {
				err = e2
			}
		}
		r.Eval(1)
		hd, _ := json.Marshal([]any{q.Header, q.More, q.Declared, q.Remote, q.Proto})
		r.Distinct(core.Hash([]byte(q.Method), []byte(q.Path), q.Body, []byte{byte(q.BodyErr), byte(q.BodyErr >> 8)}, hd))
		ts[w].add(fmt.Sprintf("%d", a.Code))
		if err != nil {
			r.Violate("raw", "raw:"+q.String(), err.Error(), q)
		}
		if after != x.before || a.Panic != "" {
			x.reset()
		}
	})
	for i := range ts {
		r.Outcomes(ts[i].m)
	}
}

func rawRequests(r *core.Run, emit func(raw) bool) {
	sp := model.NewSpec()
	ikD, ikA := ikOf(sp, mD0), ikOf(sp, mA0)
	js := func(m map[string]string) []byte { b, _ := json.Marshal(m); return b }
	type route struct {
		path   string
		fields map[string]string
	}
	pin := map[string]string{"pin": "1234", "pan": "4012345678909", "format": "ISO-0"}
	dpin := map[string]string{"encrypted": "1b9c1845eb993a7a", "pan": "4012345678909", "format": "ISO-0"}
	mac := map[string]string{"data": "4012345678909D987", "action": "request", "macType": "cmac"}
	data := map[string]string{"data": "4012345678909D987", "action": "request", "iv": "0102030405060708"}
	ddata := map[string]string{"data": "00112233445566778899aabbccddeeff", "action": "request", "iv": "0102030405060708"}
	bk := map[string]string{"Algorithm": "des", "AlgorithmKey": "", "BaseDerivativeKey": "0123456789ABCDEFFEDCBA9876543210", "KeySerialNumber": "FFFF9876543299E00001"}
	routes := []route{{"/machine", bk}}
	for _, ik := range []string{ikD, ikA, absentIK} {
		routes = append(routes, route{"/encrypt_pin/" + ik, pin}, route{"/decrypt_pin/" + ik, dpin}, route{"/generate_mac/" + ik, mac},
			route{"/encrypt_data/" + ik, data}, route{"/decrypt_data/" + ik, ddata}, route{"/generate_ksn/" + ik, map[string]string{}})
	}
	// methods x paths x origins
	methods := []string{"GET", "POST", "PUT", "PATCH", "DELETE", "HEAD", "OPTIONS", "TRACE", "get", "Options", "FOO", "POSTX", "CONNECT", "PROPFIND", "QUERY", "LINK", "PURGE", "PRI", "M-SEARCH", "post", "pOST", "P", strings.Repeat("A", 5000)}
	paths := []string{"/", "/ping", "/ping/", "/ping/x", "/pings", "/machines", "/machines/", "/machines/" + ikD, "/machine", "/machine/", "/machine/" + ikD, "/machine/" + ikD + "/", "/machine/" + ikD + "/x",
		"/machine/" + absentIK, "/Machine", "/MACHINES", "/machine/" + strings.ToUpper(ikD), "/generate_ksn", "/generate_ksn/", "/generate_ksn/x/y", "/encrypt_pin", "/decrypt_pin/", "/generate_mac", "/encrypt_data",
		"/decrypt_data/", "/decrypt", "/encrypt/" + ikD, "/unknown", "/unknown/x", "/machines.json", "/machine?ik=" + ikD, "/machines?x=1&y=%zz", "/ping?", "//machines", "/machine//" + ikD, "/../machines", "/./machines",
		"/machine/..", "/machine/%2e%2e", "/machine/%2F", "/machine/%00", "/machine/%ff", "/machine/%E2%98%83", "/%6dachines", "/machine/" + strings.Repeat("a", 8000), "/machine/ %20"[:9] + "%20", "/*", "/machine/*", "/machine/{ik}"}
	for _, x := range routes[1:] {
		paths = append(paths, x.path)
	}
	headers := []map[string]string{nil, {"Origin": "https://moov.io"}, {"Origin": "http://localhost:8080"}, {"Origin": "http://localhost"}, {"Origin": "http://moov.io"}, {"Origin": "null"},
		{"Origin": "https://"}, {"Origin": "HTTPS://moov.io"}, {"Origin": "http://localhost:"}, {"Origin": "xhttps://moov.io"}, {"Origin": "https://a b\tc;\"'<>"}, {"Origin": "http://localhost.evil.com:80"},
		{"Origin": "http://127.0.0.1:80"}, {"Origin": "file://"}, {"Origin": "*"}, {"Origin": ""},
		{"X-Request-Id": strings.Repeat("r", 4000)}, {"Content-Type": "text/plain"}, {"Content-Type": "application/json"}, {"Content-Type": "\x7f"}, {"Accept": "text/plain"},
		{"Access-Control-Request-Method": "POST", "Origin": "https://x"}, {"X-Http-Method-Override": "DELETE"}, {"Content-Length": "5"}, {"Transfer-Encoding": "chunked"}}
	// origins of every length and of odd contents; every character at the ends of the allowed prefixes
	var origins []string
	for n := 0; n <= 300; n++ {
		origins = append(origins, "https://"+strings.Repeat("sub.domain.", n/11+1)[:n], "http://localhost:"+strings.Repeat("8", n), "http://"+strings.Repeat("x", n)+".moov.io", "http://localhost"+strings.Repeat(".", n))
	}
	for _, n := range []int{511, 512, 513, 1023, 1024, 1025, 2048, 4095, 4096, 4097, 8192, 65536} {
		origins = append(origins, "https://"+strings.Repeat("a", n), "http://localhost:"+strings.Repeat("1", n), "http://"+strings.Repeat("a", n))
	}
	for c := 0x20; c < 0x100; c++ {
		if c != 0x7f {
			ch := string([]byte{byte(c)})
			origins = append(origins, "https://"+ch, "https://a"+ch+"b", "http://localhost:"+ch, "http://localhost"+ch+"80", "http"+ch+"//moov.io", "https:/"+ch+"moov.io", ch+"ttps://moov.io", ch+"https://moov.io", "http://"+ch+"localhost:80")
		}
	}
	for _, a := range []string{"https://moov.io", "http://localhost:8080", "https://app.moov.io:8443", "http://localhost:3000/path"} {
		for i := range a {
			origins = append(origins, a[:i], a[i:], a[:i]+a[i+1:], a[:i]+strings.ToUpper(a[i:i+1])+a[i+1:])
		}
		origins = append(origins, a+"/", a+",https://b", a+" "+a, "null,"+a, a+"#x", a+"?x", strings.ToUpper(a))
	}
	for _, s := range core.Lit().Strings {
		if !strings.ContainsAny(s, "\r\n") {
			origins = append(origins, s, "https://"+s, "http://localhost:"+s, "http://"+s, s+"https://x")
		}
	}
	for _, o := range origins {
		h := map[string]string{"Origin": o}
		for _, x := range []raw{{Method: "GET", Path: "/ping"}, {Method: "GET", Path: "/machines"}, {Method: "OPTIONS", Path: "/machine"}, {Method: "POST", Path: routes[1].path, Body: js(routes[1].fields)},
			{Method: "GET", Path: "/machine/" + absentIK}, {Method: "GET", Path: "/unknown"}} {
			x.Header, x.NilBody = h, x.Body == nil
			if !emit(x) {
				return
			}
		}
	}
	// several Origin lines
	for _, o := range [][]string{{"https://moov.io", "http://evil.example"}, {"http://evil.example", "https://moov.io"}, {"https://a", "https://b"}, {"https://a", "http://localhost:1"}, {"http://localhost:1", "https://a"},
		{"http://a", "http://b"}, {"", "https://a"}, {"https://a", ""}, {"null", "https://a"}, {"http://a", "http://localhost:1"}, {"http://localhost:1", "http://a"}, {"https://a", "https://a"},
		{"https://a", "http://b", "https://c"}, {"http://a", "https://b", "http://c"}, {"https:", "//x"}, {"http://localhost", ":80"}, {"https://a", "file:///x"}} {
		for i, p := range []raw{{Method: "GET", Path: "/ping"}, {Method: "GET", Path: "/machines"}, {Method: "OPTIONS", Path: "/machine"}, {Method: "POST", Path: routes[1].path, Body: js(routes[1].fields)},
			{Method: "GET", Path: "/machine/" + ikD}, {Method: "GET", Path: "/machine/" + absentIK}, {Method: "GET", Path: "/unknown"}} {
			p.NilBody = i != 3
			for _, x := range o {
				p.More = append(p.More, [2]string{"Origin", x})
			}
			if !emit(p) {
				return
			}
		}
	}
	// other headers that name an origin, alone and beside an Origin
	for _, n := range []string{"Referer", "Host", "Forwarded", "X-Forwarded-Host", "X-Forwarded-Proto", "X-Origin", "X-Forwarded-Origin", "Access-Control-Allow-Origin", "Access-Control-Request-Headers", "Access-Control-Request-Method", "Access-Control-Request-Private-Network",
		"Sec-Fetch-Site", "Sec-Fetch-Mode", "Vary", "Cookie", "Authorization", "User-Agent", "Content-Type", "Accept", "Accept-Encoding", "X-Http-Method-Override", "X-Method-Override", "X-Original-Url", "X-Rewrite-Url", "Upgrade", "Connection", "Te", "Trailer"} {
		for _, v := range []string{"", "https://moov.io", "http://localhost:80", "http://evil.example", "*", "DELETE", "cross-site", "GET", "gzip", "websocket", "/ping", "true"} {
			for _, o := range []string{"", "https://moov.io", "http://evil.example", "http://localhost:80"} {
				for i, p := range []raw{{Method: "GET", Path: "/ping"}, {Method: "GET", Path: "/machines"}, {Method: "OPTIONS", Path: "/machine"}, {Method: "POST", Path: routes[1].path, Body: js(routes[1].fields)}, {Method: "GET", Path: "/machine/" + absentIK}, {Method: "DELETE", Path: "/machine/" + ikD}} {
					p.NilBody = i != 3
					p.More = [][2]string{{n, v}}
					if o != "" {
						p.More = append(p.More, [2]string{"Origin", o})
					}
					if !emit(p) {
						return
					}
				}
			}
		}
	}
	// methods, paths, queries, names and values of headers and bodies that the constants of the code suggest
	shapes := []string{"5-2", "0-9", "-5", "9-", "-1", "0", "-", ",", "=", "/", ";", "a=", "=a", "a,,b", "a;q=x", "1/0", "99999999999999999999", "-9223372036854775808", "1e9", "0x10", "%", "\"", "\"a", "a:b", ":", "[", "2026-13-45"}
	for _, s := range core.Lit().Strings {
		if strings.ContainsAny(s, "\r\n") || s == "" {
			continue
		}
		if last := s[len(s)-1]; !(last >= '0' && last <= '9' || last >= 'a' && last <= 'z' || last >= 'A' && last <= 'Z') && len(s) <= 24 && len(shapes) < 300 {
			for _, t := range []string{"5-2", "0-9", "-1", "-", "1/0", "99999999999999999999", "a", "5, -2", s} {
				shapes = append(shapes, s+t)
			}
		}
	}
	// header fields with values that are malformed in every way, about nothing in particular and about the constants of the code
	about := []string{"q", "a", "1"}
	for _, s := range core.Lit().Strings {
		if len(s) <= 16 && s != "" && strings.Trim(strings.ToLower(s), "abcdefghijklmnopqrstuvwxyz0123456789-_") == "" && len(about) < 400 {
			about = append(about, s)
		}
	}
	for _, n := range []string{"Accept", "Accept-Encoding", "Accept-Language", "Accept-Charset", "Authorization", "Cache-Control", "Content-Encoding", "Content-Disposition", "Content-Language", "Content-Type", "Cookie", "Date", "Digest",
		"Expect", "Forwarded", "From", "If-Match", "If-Modified-Since", "If-None-Match", "If-Range", "Idempotency-Key", "Max-Forwards", "Prefer", "Priority", "Range", "Referer", "Te", "Traceparent", "User-Agent", "Via", "X-Api-Key",
		"X-Api-Version", "X-Forwarded-For", "X-Forwarded-Port", "X-Forwarded-Proto", "X-Forwarded-Host", "X-Real-Ip", "X-Request-Id", "X-User-Id"} {
		for i, s := range about {
			for _, v := range []string{";" + s, s + ";", "a/b;" + s, "a/b;" + s + "=", "a/b; " + s + " ; c", "a/b;" + s + "=\"", "a/b;=" + s, s, s + "=", "=" + s, s + ",", "," + s, s + "/", "/" + s, s + " ", " " + s, s + ":", ":" + s, s + "/1", s + " 1", s + "=1",
				s + "=1-", "W/" + s, "\"" + s, s + "-" + s, s + "." + s + "." + s, "Bearer " + s, "Basic " + s, "a=" + s + "; b", "[" + s, s + "]", "%" + s, s + strings.Repeat(";"+s, 40)} {
				for j, p := range []raw{{Method: "GET", Path: "/machines", NilBody: true}, {Method: "POST", Path: routes[1].path, Body: js(routes[1].fields)}, {Method: "GET", Path: "/ping", NilBody: true}, {Method: "GET", Path: "/machine/" + absentIK, NilBody: true}} {
					if i >= 3 && j >= 2 {
						continue
					}
					p.Header = map[string]string{n: v}
					if !emit(p) {
						return
					}
				}
			}
		}
	}
	for _, s := range core.Lit().Strings {
		tok := s != "" && strings.Trim(strings.ToLower(s), "abcdefghijklmnopqrstuvwxyz0123456789-_") == ""
		for _, p := range []raw{{Method: "GET", Path: "/ping"}, {Method: "GET", Path: "/machines"}, {Method: "OPTIONS", Path: "/machine"}, {Method: "POST", Path: routes[1].path, Body: js(routes[1].fields)},
			{Method: "GET", Path: "/machine/" + ikD}, {Method: "GET", Path: "/machine/" + absentIK}, {Method: "DELETE", Path: "/machine/" + ikD}} {
			p.NilBody = p.Body == nil
			if tok {
				for _, v := range []string{"", "1", "true", "POST", "https://moov.io", s} {
					q := p
					q.Header = map[string]string{s: v}
					emit(q)
					q.Header = map[string]string{"X-" + s: v, "Origin": "https://moov.io"}
					emit(q)
				}
				for _, v := range shapes {
					q := p
					q.Header = map[string]string{s: v}
					if !emit(q) {
						return
					}
					q.Header, q.Path = nil, q.Path+"?"+s+"="+url.QueryEscape(v)
					if !emit(q) {
						return
					}
				}
				q := p
				q.Method = s
				emit(q)
			}
			if !strings.ContainsAny(s, "\r\n") {
				for _, h := range []string{"Content-Type", "Accept", "X-Request-Id", "Authorization", "User-Agent", "Connection"} {
					q := p
					q.Header = map[string]string{h: s}
					emit(q)
				}
			}
			e := url.QueryEscape(s)
			for _, v := range []string{e, e + "=1", e + "=true", "x=" + e} {
				q := p
				q.Path += "?" + v
				emit(q)
			}
		}
		e := url.PathEscape(s)
		for _, p := range []string{"/" + e, "/machine/" + e, "/machines/" + e, "/generate_ksn/" + e, "/encrypt_data/" + e, "/" + e + "/" + ikD, "/" + e + "/x/y"} {
			for _, m := range []string{"GET", "POST", "DELETE", "OPTIONS"} {
				if !emit(raw{Method: m, Path: p, NilBody: true}) {
					return
				}
			}
		}
		for _, x := range routes {
			emit(raw{Method: "POST", Path: x.path, Body: []byte(s)})
			q, _ := json.Marshal(s)
			emit(raw{Method: "POST", Path: x.path, Body: q})
			for k := range x.fields {
				m := map[string]string{}
				for k, v := range x.fields {
					m[k] = v
				}
				m[k] = s
				emit(raw{Method: "POST", Path: x.path, Body: js(m)})
				m[s] = s
				emit(raw{Method: "POST", Path: x.path, Body: js(m)})
			}
		}
	}
	for _, z := range core.Lit().Sizes(100000) {
		for _, x := range routes {
			v := js(x.fields)
			if z >= len(v) {
				emit(raw{Method: "POST", Path: x.path, Body: append(bytes.Repeat([]byte(" "), z-len(v)), v...)})
				emit(raw{Method: "POST", Path: x.path, Body: append(v[:len(v):len(v)], bytes.Repeat([]byte(" "), z-len(v))...)})
			}
			emit(raw{Method: "POST", Path: x.path, Body: bytes.Repeat([]byte("["), z)})
		}
		if z < 20000 {
			emit(raw{Method: "GET", Path: "/machine/" + strings.Repeat("a", z), NilBody: true})
			emit(raw{Method: "GET", Path: "/ping", NilBody: true, Header: map[string]string{"X-Request-Id": strings.Repeat("r", z), "Origin": "https://" + strings.Repeat("o", z)}})
		}
	}
	for _, m := range methods {
		for _, p := range paths {
			for _, h := range headers {
				for _, b := range [][]byte{nil, []byte("{}"), []byte("x")} {
					if !emit(raw{Method: m, Path: p, Header: h, Body: b, NilBody: b == nil}) {
						return
					}
				}
			}
		}
	}
	// what the connection tells about a request: announced lengths that the body does not reach, none, clients of every kind
	for _, x := range routes {
		valid := js(x.fields)
		for n := 0; n <= len(valid); n++ {
			q := raw{Method: "POST", Path: x.path, Body: valid[:n]}
			q.Declared = "chunked"
			emit(q)
			for _, d := range []int64{1, 2, 7, 512, 4096, 1 << 16, 1 << 20, 1<<31 - 1, 1 << 31, 1<<32 - 1, 1 << 62, 1<<63 - 1} {
				if int64(n) < d {
					q.Declared = fmt.Sprint(d)
					if !emit(q) {
						return
					}
				}
				if d < 1<<20 && n > 0 {
					q.Declared = fmt.Sprint(int64(n) + d)
					emit(q)
				}
			}
		}
	}
	for _, p := range append([]string{"http://localhost", "http://localhost/machines", "http://localhost/machine/" + ikD, "http://other:80/ping?x#y", "https://x", "/"}, paths[:12]...) {
		for _, m := range append([]string{"CONNECT"}, methods...) {
			for _, rem := range []string{"", "=", "@", "[::1]:1", "[fe80::1%eth0]:65535", "10.0.0.1", "pipe", ":0", "localhost:http"} {
				for _, pr := range []string{"", "1.0", "2.0", "tls", "host", "nohost"} {
					if !emit(raw{Method: m, Path: p, NilBody: true, Remote: rem, Proto: pr}) {
						return
					}
				}
			}
		}
	}
	// creations of machines that exist, or almost: every bit of the key serial number and of the key, every kind of key, other ways to write them
	for _, b := range []server.BaseKey{mD0, mA0} {
		var ksns, bdks []string
		kb, _ := hex.DecodeString(b.KeySerialNumber)
		bb, _ := hex.DecodeString(b.BaseDerivativeKey)
		for i := range 8 * len(kb) {
			c := cp(kb)
			c[i/8] ^= 1 << (i % 8)
			ksns = append(ksns, hexs(c))
		}
		for i := range 8 * len(bb) {
			c := cp(bb)
			c[i/8] ^= 1 << (i % 8)
			bdks = append(bdks, hexs(c))
		}
		own := []string{b.KeySerialNumber, strings.ToLower(b.KeySerialNumber), strings.ToUpper(b.KeySerialNumber)}
		ksns = append(ksns, append([]string{"", b.KeySerialNumber + "00", "00" + b.KeySerialNumber, " " + b.KeySerialNumber, b.KeySerialNumber[1:], b.KeySerialNumber[2:], "0x" + b.KeySerialNumber}, own...)...)
		ownB := []string{b.BaseDerivativeKey, strings.ToLower(b.BaseDerivativeKey), strings.ToUpper(b.BaseDerivativeKey)}
		bdks = append(bdks, append([]string{"", b.BaseDerivativeKey + "00", " " + b.BaseDerivativeKey, b.BaseDerivativeKey[1:], b.BaseDerivativeKey + b.BaseDerivativeKey, b.BaseDerivativeKey + b.BaseDerivativeKey[:16]}, ownB...)...)
		for _, alg := range []string{"des", "aes", "DES", "AES", "tdes", ""} {
			for _, ak := range []string{"", "AES128", "AES192", "AES256", "2TDEA", "3TDEA", "HMAC128", "HMAC192", "HMAC256", "aes128", "x"} {
				dup := func(bdk, ksn string) bool {
					m := map[string]string{"Algorithm": alg, "AlgorithmKey": ak, "BaseDerivativeKey": bdk, "KeySerialNumber": ksn}
					if !emit(raw{Method: "POST", Path: "/machine", Body: js(m)}) {
						return false
					}
					m["InitialKey"], m["CurrentKSN"], m["TransactionKey"] = ikD, ksn, ikA
					return emit(raw{Method: "POST", Path: "/machine", Body: js(m)})
				}
				for _, k := range ksns {
					if !dup(b.BaseDerivativeKey, k) {
						return
					}
				}
				for _, d := range bdks {
					for _, k := range own {
						if !dup(d, k) {
							return
						}
					}
				}
			}
		}
	}
	// successful requests of every route with every header set
	for _, x := range routes {
		for _, h := range headers {
			emit(raw{Method: "POST", Path: x.path, Header: h, Body: js(x.fields)})
		}
	}
	wrong := []string{`null`, `true`, `1`, `-1.5e9`, `1e999`, `""`, `"x"`, `[]`, `{}`, `[null]`, `{"a":1}`, `"\ud800"`, `"\u0000"`, `tru`, `"`, `'x'`, `NaN`, `"` + strings.Repeat("9", 20000) + `"`}
	shapes = []string{"", " ", "\n", "{", "}", "[", "null", "true", "1", `""`, `"x"`, "[]", "[{}]", "{}", "{}{}", "{} x", "{,}", `{"a"}`, `{"a":}`, `{"a":1,}`, `{a:1}`, `{'a':1}`, "\xef\xbb\xbf{}", "\xff\xfe{\x00}\x00",
		"\x00", "{\"\xff\":\"\xff\"}", "<xml/>", "pin=1234&pan=1", strings.Repeat("[", 20000), strings.Repeat(`{"a":`, 11000), strings.Repeat(`{"pin":`, 500) + "1" + strings.Repeat("}", 500), "//c\n{}", `{"__proto__":{}}`,
		`{"":""}`, strings.Repeat(" ", 100000) + "{}", `{"data":"` + strings.Repeat("a", 1<<20) + `"}`}
	for _, x := range routes {
		valid := js(x.fields)
		post := func(b []byte) bool { return emit(raw{Method: "POST", Path: x.path, Body: b}) }
		for _, s := range shapes {
			post([]byte(s))
		}
		// every field with every wrong value, and every pair of fields
		var names []string
		for k := range x.fields {
			names = append(names, k)
		}
		sortStrings(names)
		build := func(rawv map[string]string, skip string) []byte {
			var b strings.Builder
			b.WriteString("{")
			sep := ""
			for _, k := range names {
				if k == skip {
					continue
				}
				v, ok := rawv[k]
				if !ok {
					q, _ := json.Marshal(x.fields[k])
					v = string(q)
				}
				fmt.Fprintf(&b, "%s%q:%s", sep, k, v)
				sep = ","
			}
			return []byte(b.String() + "}")
		}
		for i, k := range names {
			post(build(nil, k))
			for _, v := range wrong {
				post(build(map[string]string{k: v}, ""))
				post([]byte(fmt.Sprintf(`{%q:%s}`, k, v)))
				// the field twice
				post([]byte(strings.TrimSuffix(string(valid), "}") + fmt.Sprintf(`,%q:%s}`, k, v)))
				for _, k2 := range names[i+1:] {
					for _, v2 := range wrong {
						if len(v)+len(v2) < 1000 {
							post(build(map[string]string{k: v, k2: v2}, ""))
						}
					}
				}
			}
			// every content of a string field that matters to some operation
			for _, v := range append(append([]string{}, oddTexts...), "zz", "0", "00", strings.Repeat("00", 8), strings.Repeat("00", 16), strings.Repeat("ff", 24), strings.Repeat("0", 31), "ISO-4", "iso-0", "ANSI", "VISA3",
				"aes", "des", "AES128", "AES192", "hmac", "cmac", "response", "000000000000", strings.Repeat("9", 19), strings.Repeat("9", 300), "-1234567890123", "12a4", "ＡＢＣＤ") {
				q, _ := json.Marshal(v)
				post(build(map[string]string{k: string(q)}, ""))
				for _, k2 := range names {
					if k2 != k {
						post([]byte(fmt.Sprintf(`{%q:%s,%q:""}`, k, q, k2)))
					}
				}
			}
		}
		// truncation, deletion and substitution at every byte; failing readers
		for i := 0; i <= len(valid); i++ {
			post(valid[:i])
			emit(raw{Method: "POST", Path: x.path, Body: valid, BodyErr: i + 1})
			if i == len(valid) {
				break
			}
			post(append(append([]byte{}, valid[:i]...), valid[i+1:]...))
			for _, c := range allVals {
				b := cp(valid)
				b[i] = c
				post(b)
				post(append(append(append([]byte{}, valid[:i]...), c), valid[i:]...))
			}
			subs := []byte{0, '"', '\\', '{', '}', ',', ':', ' ', '1', 0xff, '\n', 0x80}
			for j := i + 1; j < len(valid) && (r.Thorough || j < i+4); j++ {
				for _, c := range subs {
					for _, d := range subs {
						b := cp(valid)
						b[i], b[j] = c, d
						post(b)
					}
				}
			}
		}
	}
}

func sortStrings(s []string) {
	for i := range s {
		for j := i; j > 0 && s[j] < s[j-1]; j-- {
			s[j], s[j-1] = s[j-1], s[j]
		}
	}
}

func runC26(r *core.Run) {
	r.Rule("a case is one HTTP request on a service holding two machines: complete products of methods, paths, header sets and bodies, and for every POST route all malformed shapes, wrongly typed and missing fields, " +
		"truncation, deletion and substitution at every byte of a valid body and a body whose reading fails after every byte; distinct_nontrivial counts distinct requests")
	rawRuns(r, judgeC26, nil)
}
