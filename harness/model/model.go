// Package model is the sequential specification of the machine service: a reference state machine built on package ref
// and, next to it, the interpreter that takes the same step on a real service.
package model

import (
	"encoding/hex"
	"encoding/json"
	"errors"
	"fmt"
	"runtime/debug"
	"sort"
	"strings"
	"time"

	"github.com/moov-io/dukpt/pkg/server"

	"verif.local/h/calls"
)

// Op is one service call.
type Op struct {
	Fn string // create get list next delete encpin decpin mac encdata decdata createnil
	IK string `json:",omitempty"`
	// create
	Base server.BaseKey
	// pin pan format / data action mac-type / data action iv; a create takes what the other fields of the record passed
	// hold already (see Fills) from A
	A, B, C string `json:",omitempty"`
}

func (o Op) String() string {
	switch o.Fn {
	case "create":
		a := ""
		if o.A != "" {
			a = " holding " + o.A
		}
		return fmt.Sprintf("create(%s %s bdk=%s ksn=%s%s)", o.Base.Algorithm, o.Base.AlgorithmKey, o.Base.BaseDerivativeKey, o.Base.KeySerialNumber, a)
	case "list", "createnil":
		return o.Fn + "()"
	case "get", "next", "delete":
		return fmt.Sprintf("%s(%s)", o.Fn, short(o.IK))
	}
	a := o.A
	if len(a) > 1000 {
		a = fmt.Sprintf("%s... (%d bytes)", a[:200], len(a))
	}
	return fmt.Sprintf("%s(%s, %q, %q, %q)", o.Fn, short(o.IK), a, o.B, o.C)
}

func short(s string) string {
	if len(s) > 8 {
		return s[:8] + ".."
	}
	return s
}

// M is a machine of the specification.
type M struct {
	Base server.BaseKey
	IK   string
	Cur  string // hex, lower case
	TK   string
	At   string // the creation time the caller gave, "" if none
}

func (m *M) canon() string {
	return canon(m.Base, m.IK, m.Cur, m.TK, m.At)
}

func canon(b server.BaseKey, ik, cur, tk, at string) string {
	l := strings.ToLower
	return strings.Join([]string{b.Algorithm, b.AlgorithmKey, l(b.BaseDerivativeKey), l(b.KeySerialNumber), l(ik), l(cur), l(tk), at}, "|")
}

// given are the creation times the harness gives. A record created without one may hold any time.
var given = map[string]time.Time{
	"old":    time.Date(2001, 2, 3, 4, 5, 6, 7, time.UTC),
	"future": time.Date(2201, 2, 3, 4, 5, 6, 7, time.UTC),
}

func givenAt(fill string) string {
	if fill == "all" {
		return "future"
	}
	if _, ok := given[fill]; ok {
		return fill
	}
	return ""
}

// Canon is the comparable form of a record of the real service.
func Canon(m *server.Machine) string {
	if m == nil {
		return "nil"
	}
	at := ""
	for n, t := range given {
		if m.CreatedAt.Equal(t) {
			at = n
		}
	}
	return canon(m.BaseKey, m.InitialKey, m.CurrentKSN, m.TransactionKey, at)
}

// State of the specification.
type State struct {
	Ms map[string]*M
}

func NewState() *State { return &State{Ms: map[string]*M{}} }

func (s *State) Clone() *State {
	c := NewState()
	for k, m := range s.Ms {
		x := *m
		c.Ms[k] = &x
	}
	return c
}

// Key identifies the state.
func (s *State) Key() string { return strings.Join(s.list(), ";") }

func (s *State) list() []string {
	var o []string
	for _, m := range s.Ms {
		o = append(o, m.canon())
	}
	sort.Strings(o)
	return o
}

// Exp is what the specification demands of a result.
type Exp struct {
	Kind string // error, notfound, exists (all errors), any, ok, record, list, want
	S    string
	W    calls.Want
}

func (e Exp) String() string {
	switch e.Kind {
	case "want":
		return e.W.String()
	case "record", "list":
		return e.Kind + " " + e.S
	}
	return e.Kind
}

// Res is a real result.
type Res struct {
	Kind   string // error, ok, record, list, text, panic
	S      string
	NotFnd bool
	Exists bool
	JSON   bool // went through a JSON string, which cannot carry bytes that are not UTF-8
}

func (r Res) String() string { return r.Kind + " " + r.S }

// Check compares a real result with the expectation.
func (e Exp) Check(r Res) error {
	if r.Kind == "panic" {
		return fmt.Errorf("panicked: %s", r.S)
	}
	switch e.Kind {
	case "any":
		return nil
	case "error", "notfound", "exists":
		if r.Kind != "error" {
			return fmt.Errorf("answered %s, want an error (%s)", r, e.Kind)
		}
		return nil
	case "want":
		cr := calls.Result{S: r.S, OK: r.Kind == "text"}
		if r.Kind == "error" {
			cr = calls.Result{Err: r.S}
		}
		w := e.W
		if r.JSON && w.Kind == "value" {
			b, _ := json.Marshal(w.S)
			json.Unmarshal(b, &w.S)
		}
		return w.Check(cr)
	}
	if e.Kind == "record" && r.Kind == "ksn" {
		if f := strings.Split(e.S, "|"); !strings.EqualFold(f[5], r.S) {
			return fmt.Errorf("answered key serial number %s, want %s", r.S, f[5])
		}
		return nil
	}
	if r.Kind != e.Kind || r.S != e.S {
		return fmt.Errorf("answered %s, want %s", r, e)
	}
	return nil
}

type memoKey struct {
	fn string
	p  server.UnifiedParams
}

// Spec steps states; it memoises the reference derivations and is not safe for concurrent use.
type Spec struct {
	memo map[memoKey]calls.Want
}

func NewSpec() *Spec { return &Spec{memo: map[memoKey]calls.Want{}} }

func (sp *Spec) want(fn string, p server.UnifiedParams) calls.Want {
	k := memoKey{fn, p}
	if w, ok := sp.memo[k]; ok {
		return w
	}
	w := calls.WantOf(&calls.Call{Fn: fn, P: &p})
	if len(sp.memo) > 400000 {
		clear(sp.memo)
	}
	sp.memo[k] = w
	return w
}

// nextKsn is the hex successor of a KSN, ok=false at the end or for unusable sizes.
func nextKsn(alg, ksn string) (string, bool) {
	b, err := hex.DecodeString(ksn)
	if err != nil {
		return "", false
	}
	fn := "pkg.NextDes"
	if alg == "aes" {
		fn = "pkg.NextAes"
	}
	w := calls.WantOf(&calls.Call{Fn: fn, Ksn: b})
	if w.Kind != "value" {
		return "", false
	}
	return hex.EncodeToString(w.B), true
}

// Step applies op to the state and returns what a correct service answers.
func (sp *Spec) Step(s *State, op Op) Exp {
	switch op.Fn {
	case "createnil":
		return Exp{Kind: "error"}
	case "list":
		return Exp{Kind: "list", S: strings.Join(s.list(), ";")}
	case "create":
		b := op.Base
		if b.Algorithm != "des" && b.Algorithm != "aes" {
			return Exp{Kind: "error"}
		}
		ik := sp.want("srv.IK", server.UnifiedParams{Algorithm: b.Algorithm, BKD: b.BaseDerivativeKey, KSN: b.KeySerialNumber})
		if ik.Kind != "value" {
			return Exp{Kind: "error"}
		}
		tk := sp.want("srv.TK", server.UnifiedParams{Algorithm: b.Algorithm, IK: ik.S, KSN: b.KeySerialNumber})
		if tk.Kind != "value" {
			return Exp{Kind: "error"}
		}
		if s.Ms[ik.S] != nil {
			return Exp{Kind: "exists"}
		}
		m := &M{Base: b, IK: ik.S, Cur: strings.ToLower(b.KeySerialNumber), TK: tk.S, At: givenAt(op.A)}
		s.Ms[ik.S] = m
		return Exp{Kind: "record", S: m.canon()}
	case "delete":
		if s.Ms[op.IK] == nil {
			return Exp{Kind: "any"} // deleting an absent machine is harmless, with or without an error
		}
		delete(s.Ms, op.IK)
		return Exp{Kind: "ok"}
	}
	m := s.Ms[op.IK]
	if m == nil {
		return Exp{Kind: "notfound"}
	}
	p := server.UnifiedParams{Algorithm: m.Base.Algorithm, AlgorithmKey: m.Base.AlgorithmKey, KSN: m.Cur, IK: m.IK, TK: m.TK}
	fn := ""
	switch op.Fn {
	case "get":
		return Exp{Kind: "record", S: m.canon()}
	case "next":
		nk, ok := nextKsn(m.Base.Algorithm, m.Cur)
		if !ok {
			return Exp{Kind: "error"}
		}
		tk := sp.want("srv.TK", server.UnifiedParams{Algorithm: m.Base.Algorithm, IK: m.IK, KSN: nk})
		if tk.Kind != "value" {
			return Exp{Kind: "error"}
		}
		m.Cur, m.TK = nk, tk.S
		return Exp{Kind: "record", S: m.canon()}
	case "encpin", "decpin":
		fn = map[string]string{"encpin": "srv.EncPin", "decpin": "srv.DecPin"}[op.Fn]
		p.PIN, p.PAN, p.Format = op.A, op.B, op.C
		if p.Format == "" {
			p.Format = "ISO-0"
		}
	case "mac":
		fn = "srv.Mac"
		p.Plaintext, p.Action, p.MacType = op.A, op.B, op.C
		if p.MacType == "hmac" && p.Algorithm == "aes" {
			p.AlgorithmKey = strings.Replace(p.AlgorithmKey, "AES", "HMAC", 1)
		}
	case "encdata":
		fn = "srv.Enc"
		p.Plaintext, p.Action, p.IV = op.A, op.B, op.C
	case "decdata":
		fn = "srv.Dec"
		p.Ciphertext, p.Action, p.IV = op.A, op.B, op.C
	default:
		panic("model: " + op.Fn)
	}
	// the reference computes under m.TK/m.Cur; nothing of another machine can enter
	return Exp{Kind: "want", W: sp.want(fn, p)}
}

// Fills are the ways a record passed to create can be filled in beyond its base key. None of it means anything: a
// creation derives the rest of the record.
var Fills = []string{"ik", "tk", "ksn", "badksn", "endksn", "old", "future", "all", "bare"}

func Filled(op Op) *server.Machine {
	m := server.NewMachine(op.Base)
	all := op.A == "all"
	if op.A == "ik" || all {
		m.InitialKey = "00112233445566778899aabbccddeeff"
	}
	if op.A == "tk" || all {
		m.TransactionKey = "ffeeddccbbaa99887766554433221100"
	}
	if k := op.Base.KeySerialNumber; (op.A == "ksn" || all) && len(k) > 4 {
		m.CurrentKSN = k[:len(k)-1] + "7"
	}
	switch op.A {
	case "badksn":
		m.CurrentKSN = "zz"
	case "endksn":
		m.CurrentKSN = "FFFF9876543210FFFFFF"
	case "bare":
		m = &server.Machine{BaseKey: op.Base}
	}
	if at := givenAt(op.A); at != "" {
		m.CreatedAt = given[at]
	}
	return m
}

// Exec takes the step on the real service.
func Exec(s server.Service, op Op) (res Res) {
	defer func() {
		if p := recover(); p != nil {
			st := string(debug.Stack())
			if i := strings.Index(st, "panic("); i >= 0 {
				st = st[i:]
			}
			if len(st) > 1500 {
				st = st[:1500]
			}
			res = Res{Kind: "panic", S: fmt.Sprintf("%v\n%s", p, st)}
		}
	}()
	switch op.Fn {
	case "createnil":
		return fail(s.CreateMachine(nil))
	case "create":
		m := Filled(op)
		if err := s.CreateMachine(m); err != nil {
			return fail(err)
		}
		return Res{Kind: "record", S: Canon(m)}
	case "get":
		return record(s.GetMachine(op.IK))
	case "next":
		return record(s.MakeNextKSN(op.IK))
	case "list":
		return Res{Kind: "list", S: strings.Join(List(s), ";")}
	case "delete":
		return fail(s.DeleteMachine(op.IK))
	case "encpin":
		return text(s.EncryptPin(op.IK, op.A, op.B, op.C))
	case "decpin":
		return text(s.DecryptPin(op.IK, op.A, op.B, op.C))
	case "mac":
		return text(s.GenerateMac(op.IK, op.A, op.B, op.C))
	case "encdata":
		return text(s.EncryptData(op.IK, op.A, op.B, op.C))
	case "decdata":
		return text(s.DecryptData(op.IK, op.A, op.B, op.C))
	}
	panic("model: " + op.Fn)
}

// List is the comparable form of everything the service stores.
func List(s server.Service) []string {
	var o []string
	for _, m := range s.GetMachines() {
		o = append(o, Canon(m))
	}
	sort.Strings(o)
	return o
}

func fail(err error) Res {
	if err == nil {
		return Res{Kind: "ok"}
	}
	return Res{Kind: "error", S: err.Error(), NotFnd: errors.Is(err, server.ErrNotFound), Exists: errors.Is(err, server.ErrAlreadyExists)}
}

func record(m *server.Machine, err error) Res {
	if err != nil {
		return fail(err)
	}
	return Res{Kind: "record", S: Canon(m)}
}

func text(s string, err error) Res {
	if err != nil {
		return fail(err)
	}
	return Res{Kind: "text", S: s}
}

// Ops decodes a list of ops (replay data).
func Ops(b json.RawMessage) (o []Op, err error) {
	err = json.Unmarshal(b, &o)
	return
}

// History of one concurrent run, for Linearizable.
type Event struct {
	Thread    int
	Op        Op
	Res       Res
	Call, Ret int64
}

// Linearizable searches for a sequential order that explains the history from the start state; final, if not nil, is
// what the service holds afterwards.
func (sp *Spec) Linearizable(start *State, h []Event, final []string) bool {
	n := len(h)
	used := make([]bool, n)
	fin := strings.Join(final, ";")
	var rec func(s *State, left int) bool
	rec = func(s *State, left int) bool {
		if left == 0 {
			return final == nil || s.Key() == fin
		}
		minRet := int64(1) << 62
		for i := range h {
			if !used[i] && h[i].Ret < minRet {
				minRet = h[i].Ret
			}
		}
		for i := range h {
			if used[i] || h[i].Call > minRet {
				continue
			}
			c := s.Clone()
			if sp.Step(c, h[i].Op).Check(h[i].Res) != nil {
				continue
			}
			used[i] = true
			if rec(c, left-1) {
				return true
			}
			used[i] = false
		}
		return false
	}
	return rec(start.Clone(), n)
}

// NearNames are names easily taken for k: other case, blanks and other characters around it, cut, doubled, decoded, and so on.
func NearNames(k string) (o []string) {
	seen := map[string]bool{k: true}
	add := func(s string) {
		if !seen[s] {
			seen[s] = true
			o = append(o, s)
		}
	}
	add("")
	add(strings.ToUpper(k))
	add(strings.ToLower(k))
	add(strings.ToUpper(k[:1]) + k[1:])
	add(k[:len(k)-1] + strings.ToUpper(k[len(k)-1:]))
	for _, c := range []string{" ", "  ", "\t", "\n", "\r\n", "\v", "\f", "\u00a0", "\u0085", "\u2003", "\ufeff", "\u200b", "\x00", "/", "\\", ".", "-", "_", "+", "%", "%20", "#", "?", "0", "00", "0x", "\"", "'", ",", ";", ":", "=", "*", "\xff", "h"} {
		add(c)
		add(k + c)
		add(c + k)
		add(c + k + c)
		add(k[:len(k)/2] + c + k[len(k)/2:])
	}
	for i := range k {
		add(k[:i])
		add(k[i:])
		add(k[:i] + k[i+1:])
		for _, c := range []byte{'0', 'a', 'A', 'f', 'g', ' ', 'o', 'O', 'l', 0} {
			b := []byte(k)
			b[i] = c
			add(string(b))
		}
		b := []byte(k)
		b[i] ^= 0x20
		add(string(b))
		add(k[i:] + k[:i])
	}
	add(k + k)
	add("{" + k + "}")
	add("[" + k + "]")
	add("(" + k + ")")
	var r []byte
	for i := len(k) - 1; i >= 0; i-- {
		r = append(r, k[i])
	}
	add(string(r))
	if raw, err := hex.DecodeString(k); err == nil {
		add(string(raw))
	}
	add(hex.EncodeToString([]byte(k)))
	for _, n := range []int{100, 255, 256, 257, 1000, 5000} {
		add(strings.Repeat("a", n))
		add(k + strings.Repeat(" ", n))
		add(k + strings.Repeat("0", n))
	}
	return o
}

// InPath says whether a name can be one clean segment of a path.
func InPath(n string) bool {
	return n != "" && n != "." && n != ".." && !strings.Contains(n, "/")
}
