// Package checks holds the checks of the library properties (race-free binary).
package checks

import (
	"bytes"
	"crypto/rand"
	"encoding/json"
	"fmt"
	"strings"
	"sync/atomic"

	"verif.local/h/calls"
	"verif.local/h/core"
)

// fill is the environment's answer to every request for randomness: PIN block fillers become an enumerated input.
type fillReader struct {
	v atomic.Uint32 // 0..255: constant; 256: walking
	n atomic.Uint32
}

func (f *fillReader) Read(p []byte) (int, error) {
	v := f.v.Load()
	for i := range p {
		if v < 256 {
			p[i] = byte(v)
		} else {
			p[i] = byte(f.n.Add(1) * 37)
		}
	}
	return len(p), nil
}

var Fill = &fillReader{}

func init() { Fill.v.Store(256); rand.Reader = Fill }

// CallEnv is a replayable single call with the randomness answer it ran under.
type CallEnv struct {
	Call calls.Call
	Fill uint32
	Then []calls.Call `json:",omitempty"`
}

func cp(b []byte) []byte {
	if b == nil {
		return nil
	}
	return append([]byte{}, b...)
}

func cloneCall(c calls.Call) calls.Call {
	c.Key, c.Ksn, c.Data, c.IV = cp(c.Key), cp(c.Ksn), cp(c.Data), cp(c.IV)
	return c
}

func callHash(c *calls.Call) uint64 {
	var nilBits byte
	if c.IV == nil {
		nilBits |= 1
	}
	if c.P == nil {
		return core.Hash([]byte(c.Fn), c.Key, c.Ksn, c.Data, c.IV, []byte(c.Text), []byte(c.Pan), []byte(c.Fmt), []byte(c.Act), []byte{nilBits})
	}
	p := c.P
	return core.Hash([]byte(c.Fn), []byte(p.Algorithm), []byte(p.AlgorithmKey), []byte(p.BKD), []byte(p.KSN), []byte(p.IK), []byte(p.TK),
		[]byte(p.PIN), []byte(p.PAN), []byte(p.Format), []byte(p.MacType), []byte(p.Plaintext), []byte(p.Ciphertext), []byte(p.Action), []byte(p.IV))
}

// judge runs one call and compares it with the oracle.
func judge(c calls.Call) (calls.Result, error) {
	keep := cloneCall(c)
	res := calls.Exec(&c)
	if err := calls.WantOf(&keep).Check(res); err != nil {
		return res, fmt.Errorf("%s %v", keep.String(), err)
	}
	return res, nil
}

type tally struct{ m map[string]int64 }

func (t *tally) add(k string) { t.m[k]++ }

func tallies(r *core.Run) []tally {
	t := make([]tally, r.Workers)
	for i := range t {
		t[i].m = map[string]int64{}
	}
	return t
}

func outcomeOf(c *calls.Call, res *calls.Result) string {
	switch {
	case res.Panic != "":
		return c.Fn + ":panic"
	case res.OK:
		return c.Fn + ":value"
	}
	return c.Fn + ":error"
}

// runCalls judges every emitted call.
func runCalls(r *core.Run, gen func(emit func(calls.Call) bool)) {
	ts := tallies(r)
	n := 0
	core.Feed(r, func(emit func(calls.Call) bool) {
		gen(func(c calls.Call) bool {
			if n%50021 == 17 {
				r.Sample(c.String())
			}
			n++
			return emit(cloneCall(c))
		})
	}, func(w int, c calls.Call) {
		handleCall(r, w, &ts[w], c)
	})
	for i := range ts {
		r.Outcomes(ts[i].m)
	}
}

func handleCall(r *core.Run, w int, t *tally, c calls.Call) calls.Result {
	if r.Distinct(callHash(&c)) {
		t.add("distinct:" + c.Fn)
	}
	r.Eval(1)
	r.Busy(w, "call", c.Fn, CallEnv{Call: c, Fill: Fill.v.Load()})
	res, err := judge(c)
	t.add(outcomeOf(&c, &res))
	if err != nil {
		violateCall(r, c, err)
	}
	return res
}

func violateCall(r *core.Run, c calls.Call, err error) {
	r.Violate("call", "call:"+c.String(), err.Error(), CallEnv{Call: c, Fill: Fill.v.Load()})
}

// replayCall re-executes a recorded call.
func replayCall(_ *core.Run, data json.RawMessage) error {
	var e CallEnv
	if err := json.Unmarshal(data, &e); err != nil {
		return err
	}
	Fill.v.Store(e.Fill)
	_, err := judge(e.Call)
	return err
}

func replayDup(_ *core.Run, data json.RawMessage) error {
	var d struct{ A, B calls.Call }
	if err := json.Unmarshal(data, &d); err != nil {
		return err
	}
	a, b := calls.Exec(&d.A), calls.Exec(&d.B)
	if bytes.Equal(a.B, b.B) {
		return fmt.Errorf("%s and %s both give %s", d.A, d.B, a)
	}
	return nil
}

var stdReplay = map[string]func(*core.Run, json.RawMessage) error{"call": replayCall, "dup": replayDup, "pair": replayPair, "helpers": replayHelpers, "helperlong": replayLong, "helperreuse": replayReused}

func replayPair(_ *core.Run, data json.RawMessage) error {
	var p pairCase
	if err := json.Unmarshal(data, &p); err != nil {
		return err
	}
	Fill.v.Store(p.Fill)
	res := calls.Exec(&p.Enc)
	p.Dec.Data = cp(res.B)
	if back := calls.Exec(&p.Dec); !res.OK || !back.OK || back.S != p.Want {
		return fmt.Errorf("%s gives %s, which decrypts to %s, want %q", p.Enc, res, back, p.Want)
	}
	return nil
}

const rule = "a case is one call of a public function with a concrete argument vector, compared with an independent reference " +
	"derivation; the enumerated spaces are complete products of discrete dimensions (lengths, counters, formats, actions) and complete " +
	"k-byte deviation neighbourhoods of base vectors; distinct_nontrivial counts distinct argument vectors by 64-bit hash"

func hexb(s string) []byte {
	var b []byte
	if _, err := fmt.Sscanf(s, "%x", &b); err != nil {
		panic(s)
	}
	return b
}

// pattern gives n deterministic bytes that differ from position to position.
func pattern(n int, seed byte) []byte {
	b := make([]byte, n)
	x := uint32(seed)*2654435761 + 12345
	for i := range b {
		x = x*1664525 + 1013904223
		b[i] = byte(x >> 24)
	}
	return b
}

func rep(v byte, n int) []byte { return bytes.Repeat([]byte{v}, n) }

// dev1 emits base with every single byte set to every value.
func dev1(base []byte, f func([]byte) bool) bool {
	for i := range base {
		for v := 0; v < 256; v++ {
			b := cp(base)
			b[i] = byte(v)
			if !f(b) {
				return false
			}
		}
	}
	return true
}

// dev2 emits base with bytes i and j set to every pair of values (step 1) or of selected values.
func dev2(base []byte, vals []byte, f func([]byte) bool) bool {
	for i := range base {
		for j := i + 1; j < len(base); j++ {
			for _, x := range vals {
				for _, y := range vals {
					b := cp(base)
					b[i], b[j] = x, y
					if !f(b) {
						return false
					}
				}
			}
		}
	}
	return true
}

// bits2 emits base with up to two bits flipped.
func bits2(base []byte, f func([]byte) bool) bool {
	n := len(base) * 8
	for i := 0; i < n; i++ {
		for j := i; j < n; j++ {
			b := cp(base)
			b[i/8] ^= 1 << (i % 8)
			if j != i {
				b[j/8] ^= 1 << (j % 8)
			}
			if !f(b) {
				return false
			}
		}
	}
	return f(cp(base))
}

var allVals = func() []byte {
	b := make([]byte, 256)
	for i := range b {
		b[i] = byte(i)
	}
	return b
}()
var someVals = []byte{0x00, 0x01, 0x02, 0x7F, 0x80, 0x81, 0xC0, 0xFE, 0xFF, 0x1F, 0xE0, 0x5A}

// bases
var (
	stdBDK  = hexb("0123456789ABCDEFFEDCBA9876543210")
	stdKSN  = hexb("FFFF9876543210E00000")
	aesBDK  = hexb("FEDCBA9876543210F1F1F1F1F1F1F1F1")
	aesBDK2 = hexb("FEDCBA9876543210F1F1F1F1F1F1F1F1FEDCBA9876543210")
	aesBDK3 = hexb("FEDCBA9876543210F1F1F1F1F1F1F1F1FEDCBA9876543210F1F1F1F1F1F1F1F1")
	aesKSN  = hexb("123456789012345600000001")
)

func desKeys() [][]byte {
	h := pattern(8, 3)
	return [][]byte{cp(stdBDK), rep(0, 16), rep(0xFF, 16), append(cp(h), h...), pattern(16, 1), pattern(16, 2),
		hexb("C0C0C0C000000000C0C0C0C000000000"), hexb("00000000000000FF00000000000000FF")}
}
func aesKeys(n int) [][]byte {
	b := aesBDK3[:n]
	h := pattern(n/2, 3)
	return [][]byte{cp(b), rep(0, n), rep(0xFF, n), append(cp(h), h...), pattern(n, 1), pattern(n, 2)}
}
func desKsns() [][]byte {
	return [][]byte{cp(stdKSN), rep(0, 10), rep(0xFF, 10), pattern(10, 5), hexb("FFFF9876543210EFF800"), hexb("00112233445566700001"), hexb("FFFF987654321FF00ABC")}
}
func aesKsns() [][]byte {
	return [][]byte{cp(aesKSN), rep(0, 12), rep(0xFF, 12), pattern(12, 5), hexb("1234567890123456FFFF0000"), hexb("0011223344556677000A0B0C"), hexb("123456789012345600000003")}
}

func putTC(ksn []byte, tc uint32) []byte {
	b := cp(ksn)
	n := len(b)
	b[n-1], b[n-2], b[n-3], b[n-4] = byte(tc), byte(tc>>8), byte(tc>>16), byte(tc>>24)
	return b
}

// weakHalves are the 64 DES keys with degenerate key schedules (weak, semi-weak, possibly weak): in each, every 28-bit half of the
// expanded key has period at most four, which comes down to bytes of a few values in fixed places; flip sets the parity bits otherwise.
func weakHalves() (o [][]byte) {
	list := "0101010101010101 FEFEFEFEFEFEFEFE E0E0E0E0F1F1F1F1 1F1F1F1F0E0E0E0E " +
		"011F011F010E010E 1F011F010E010E01 01E001E001F101F1 E001E001F101F101 01FE01FE01FE01FE FE01FE01FE01FE01 " +
		"1FE01FE00EF10EF1 E01FE01FF10EF10E 1FFE1FFE0EFE0EFE FE1FFE1FFE0EFE0E E0FEE0FEF1FEF1FE FEE0FEE0FEF1FEF1 " +
		"01011F1F01010E0E 1F1F01010E0E0101 E0E01F1FF1F10E0E 0101E0E00101F1F1 1F1FE0E00E0EF1F1 E0E0FEFEF1F1FEFE " +
		"0101FEFE0101FEFE 1F1FFEFE0E0EFEFE E0FE011FF1FE010E 011F1FE0010E0EF1 1FE001FE0EF101FE E0FE1F01F1FE0E01 " +
		"011FFEE0010EFEF1 1FE0E01F0EF1F10E E0FEFEE0F1FEFEF1 011FE0FE010EF1FE 1FE0FE010EF1FE01 FE0101FEFE0101FE " +
		"01E01FFE01F10EFE 1FFE01E00EFE01F1 FE011FE0FE010EF1 FE01E01FFE01F10E 1FFEE0010EFEF101 FE1F01E0FE0E01F1 " +
		"01E0E00101F1F101 1FFEFE1F0EFEFE0E FE1FE001FE0EF101 01E0FE1F01F1FE0E E00101E0F10101F1 FE1F1FFEFE0E0EFE " +
		"01FE1FE001FE0EF1 E0011FFEF1010EFE FEE0011FFEF1010E 01FEE01F01FEF10E E001FE1FF101FE0E FEE01F01FEF10E01 " +
		"01FEFE0101FEFE01 E01F01FEF10E01FE FEE0E0FEFEF1F1FE 1F01011F0E01010E E01F1FE0F10E0EF1 FEFE0101FEFE0101 " +
		"1F01E0FE0E01F1FE E01FFE01F10EFE01 FEFE1F1FFEFE0E0E 1F01FEE00E01FEF1 E0E00101F1F10101 FEFEE0E0FEFEF1F1"
	for _, x := range strings.Fields(list) {
		o = append(o, hexb(x))
	}
	return o
}

// weakKeys emits double-length TDES keys made of degenerate halves: all pairs of them, each with two settings of the parity bits,
// and each half beside ordinary ones.
func weakKeys(f func([]byte) bool) bool {
	h := weakHalves()
	strip := func(b []byte) []byte {
		x := cp(b)
		for i := range x {
			x[i] &= 0xFE
		}
		return x
	}
	plain := append(h, pattern(8, 1), stdBDK[:8], rep(0, 8), rep(0xFF, 8))
	for _, l := range plain {
		for _, q := range plain {
			k := append(cp(l), q...)
			if !f(k) || !f(strip(k)) {
				return false
			}
		}
	}
	return true
}

// weakUse emits weakKeys also with each key-usage variant applied, so that the varied key is the degenerate one.
func weakUse(f func([]byte) bool) bool {
	return weakKeys(func(x []byte) bool {
		if !f(x) {
			return false
		}
		for i := 3; i < 8; i++ {
			y := cp(x)
			y[i] ^= 0xFF
			y[i+8] ^= 0xFF
			if !f(y) {
				return false
			}
		}
		return true
	})
}
