package checks

import (
	"bytes"
	"encoding/binary"
	"encoding/json"
	"fmt"
	"hash/fnv"
	"slices"
	"strings"

	"verif.local/h/calls"
	"verif.local/h/core"
	"verif.local/h/ref"
)

// A shape is a library call whose slices are cut from one arena: only their lengths vary. -1 is a nil slice.
type shape struct {
	Fn            string
	K, N, D, I, T int    // lengths of key, key serial number, ciphertext, initial vector, text
	TC            uint32 // transaction counter written into the key serial number if HasTC
	HasTC         bool
	Pan, Fmt, Act string
}

const shapeMax = 700

// arena holds the slices. The capacity of each reaches over the rest of its region, which nothing may write.
type arena struct {
	max        int
	back, orig []byte
	text       string
}

func newArena(max int) *arena {
	a := &arena{max: max, back: make([]byte, 4*max)}
	x := uint32(20260607)
	for i := range a.back {
		x = x*1664525 + 1013904223
		a.back[i] = byte(x >> 24)
	}
	a.orig = cp(a.back)
	t := make([]byte, max)
	for i := range t {
		x = x*1664525 + 1013904223
		t[i] = byte(x >> 24)
	}
	a.text = string(t)
	return a
}

func (a *arena) cut(region, n int) []byte {
	if n < 0 {
		return nil
	}
	return a.back[region*a.max : region*a.max+n : (region+1)*a.max]
}

func (a *arena) call(s shape) calls.Call {
	copy(a.back, a.orig)
	c := calls.Call{Fn: s.Fn, Key: a.cut(0, s.K), Ksn: a.cut(1, s.N), Data: a.cut(2, s.D), IV: a.cut(3, s.I), Pan: s.Pan, Fmt: s.Fmt, Act: s.Act}
	if s.HasTC {
		binary.BigEndian.PutUint32(c.Ksn[s.N-4:], s.TC)
	}
	switch s.Fn {
	case "des.EncPin", "aes.EncPin":
		c.Text = strings.Repeat("0123456789012345", 3)[:s.T]
	case "pkg.HexDec":
		c.Text = strings.Repeat("0123456789abcdefABCDEF", a.max/22+1)[:s.T]
	default:
		c.Text = a.text[:max(s.T, 0)]
	}
	return c
}

var regionNames = []string{"key", "key serial number", "ciphertext", "initial vector"}

func hashAnswer(r *calls.Result) uint64 {
	h := fnv.New64a()
	h.Write(r.B)
	h.Write([]byte{0xFE})
	h.Write([]byte(r.S))
	fmt.Fprintf(h, "%d %v %v", r.N, r.OK, r.Panic != "")
	return h.Sum64()
}

// runShape calls twice, clobbering the first result in between as a client may, and reports what the property forbids.
// prev is the result of the call before.
func runShape(a *arena, s shape, prev *calls.Result, kept *[]byte) (uint64, error) {
	c := a.call(s)
	before := cp(a.back)
	if a.max <= shapeMax && !s.HasTC {
		before = a.orig
	}
	var first uint64
	for k := 0; k < 2; k++ {
		r := calls.Exec(&c)
		if !bytes.Equal(a.back, before) {
			for i := range a.back {
				if a.back[i] != before[i] {
					where := regionNames[i/a.max]
					n := []int{s.K, s.N, s.D, s.I}[i/a.max]
					if i%a.max >= n {
						where = "memory behind the " + where
					}
					copy(a.back, before)
					return 0, fmt.Errorf("%s wrote into the %s (%d bytes long, offset %d)", brief(s), where, n, i%a.max)
				}
			}
		}
		h := hashAnswer(&r)
		if k == 1 && h != first {
			return 0, fmt.Errorf("%s answers differently when called again with the same arguments", brief(s))
		}
		first = h
		if len(r.B) > 0 && calls.Overlap(a.back, r.B) {
			return 0, fmt.Errorf("the result of %s shares memory with an argument", brief(s))
		}
		if len(prev.B) > 0 && calls.Overlap(prev.B, r.B) && len(r.B) > 0 {
			return 0, fmt.Errorf("the result of %s shares memory with the result of the call before", brief(s))
		}
		if !bytes.Equal(prev.B, *kept) {
			return 0, fmt.Errorf("%s changed the result of the call before", brief(s))
		}
		*prev = r
		for i := range r.B {
			r.B[i] ^= 0xA5
		}
		*kept = append((*kept)[:0], r.B...)
	}
	return first, nil
}

func brief(s shape) string {
	b, _ := json.Marshal(s)
	return string(b)
}

func lengths(thorough bool) []int {
	l := upto(0, 140)
	l = append(l, 143, 144, 145, 159, 160, 161, 191, 192, 193, 199, 200, 255, 256, 257, 271, 272, 273, 300, 383, 384, 511, 512, 513, 520, 640, 700)
	if thorough {
		l = upto(0, shapeMax)
	}
	return l
}

// enumShapes emits every shape of the space in a fixed order.
func enumShapes(thorough bool, f func(s shape)) {
	ls := lengths(thorough)
	ivs := upto(-1, 40)
	few := []int{-1, 0, 1, 7, 8, 9, 15, 16, 17, 32}
	for _, act := range []string{"request", "response"} {
		for _, n := range ls {
			iv := ivs
			if n > 64 && !thorough {
				iv = few
			}
			f(shape{Fn: "des.Mac", K: 16, N: -1, D: -1, I: -1, T: n, Act: act})
			for _, k := range sizes3 {
				f(shape{Fn: "aes.Cmac", K: k, N: 12, D: -1, I: -1, T: n, Fmt: aesTypes[k], Act: act})
				f(shape{Fn: "aes.Hmac", K: k, N: 12, D: -1, I: -1, T: n, Fmt: hmacTypes[k], Act: act})
			}
			for _, i := range iv {
				f(shape{Fn: "des.Enc", K: 16, N: -1, D: -1, I: i, T: n, Act: act})
				f(shape{Fn: "des.Dec", K: 16, N: -1, D: n, I: i, Act: act})
				for _, k := range sizes3 {
					f(shape{Fn: "aes.Enc", K: k, N: 12, D: -1, I: i, T: n, Fmt: aesTypes[k], Act: act})
					f(shape{Fn: "aes.Dec", K: k, N: 12, D: n, I: i, Fmt: aesTypes[k], Act: act})
				}
			}
		}
	}
	pans := []string{"400000123456", "4012345678909", "40123456789098", "4012345678909123", "4012345678909123456", "40000012345678901234"}
	for t := 0; t <= 17; t++ {
		for _, pan := range pans {
			for _, fm := range ref.FormatNames {
				f(shape{Fn: "des.EncPin", K: 16, N: -1, D: -1, I: -1, T: t, Pan: pan, Fmt: fm})
				f(shape{Fn: "des.DecPin", K: 16, N: -1, D: t, I: -1, Pan: pan, Fmt: fm})
			}
			for _, k := range sizes3 {
				f(shape{Fn: "aes.EncPin", K: k, N: 12, D: -1, I: -1, T: t, Pan: pan, Fmt: aesTypes[k]})
				f(shape{Fn: "aes.DecPin", K: k, N: 12, D: t, I: -1, Pan: pan, Fmt: aesTypes[k]})
			}
		}
	}
	// every size of keys and key serial numbers
	for n := -1; n <= 40; n++ {
		for k := -1; k <= 40; k++ {
			for _, fn := range []string{"des.IK", "des.TK", "aes.IK", "aes.TK"} {
				f(shape{Fn: fn, K: k, N: n, D: -1, I: -1})
			}
		}
		for _, fn := range []string{"pkg.NextAes", "pkg.NextDes", "pkg.ValidAes", "pkg.TcAes", "pkg.TcDes"} {
			f(shape{Fn: fn, K: -1, N: n, D: -1, I: -1})
		}
		for _, dir := range []string{"E", "D"} {
			for _, k := range []int{8, 16, 24, 32} {
				for _, fn := range []string{"enc.AES", "enc.DES", "enc.3DES"} {
					f(shape{Fn: fn, K: k, N: -1, D: n, I: -1, Act: dir})
				}
			}
		}
	}
	for _, n := range ls {
		f(shape{Fn: "pkg.HexEnc", K: -1, N: -1, D: n, I: -1})
		f(shape{Fn: "pkg.HexDec", K: -1, N: -1, D: -1, I: -1, T: n})
	}
	// counters: dense at the bottom, around every power of two, and the sums of two of them
	tcs := map[uint32]bool{}
	add := func(v uint32) { tcs[v] = true }
	var order []uint32
	for v := uint32(0); v < 1<<11; v++ {
		add(v)
	}
	for i := 0; i < 32; i++ {
		for d := uint32(0); d < 17; d++ {
			add(1<<i - 8 + d)
		}
		for j := 0; j < i; j++ {
			add(1<<i | 1<<j)
			add(1<<i - 1<<j)
		}
	}
	for v := range tcs {
		order = append(order, v)
	}
	slices.Sort(order)
	for _, v := range order {
		for _, k := range sizes3 {
			f(shape{Fn: "aes.TK", K: k, N: 12, D: -1, I: -1, HasTC: true, TC: v})
			f(shape{Fn: "aes.Cmac", K: k, N: 12, D: -1, I: -1, HasTC: true, TC: v, T: 20, Fmt: aesTypes[k], Act: "request"})
			f(shape{Fn: "aes.IK", K: k, N: 12, D: -1, I: -1, HasTC: true, TC: v})
		}
		f(shape{Fn: "aes.EncPin", K: 16, N: 12, D: -1, I: -1, HasTC: true, TC: v, T: 5, Pan: pans[1], Fmt: "AES128"})
		f(shape{Fn: "aes.Enc", K: 16, N: 12, D: -1, I: 16, HasTC: true, TC: v, T: 20, Fmt: "AES128", Act: "request"})
		f(shape{Fn: "pkg.NextAes", K: -1, N: 12, D: -1, I: -1, HasTC: true, TC: v})
		f(shape{Fn: "pkg.ValidAes", K: -1, N: 12, D: -1, I: -1, HasTC: true, TC: v})
		if v < 1<<21 {
			for _, n := range []int{4, 8, 10} {
				f(shape{Fn: "des.TK", K: 16, N: n, D: -1, I: -1, HasTC: true, TC: v | 0xFFE00000})
				f(shape{Fn: "des.IK", K: 16, N: n, D: -1, I: -1, HasTC: true, TC: v})
				f(shape{Fn: "pkg.NextDes", K: -1, N: n, D: -1, I: -1, HasTC: true, TC: v})
			}
		}
	}
}

// enumBigShapes emits the few large ones.
func enumBigShapes(f func(s shape)) {
	for _, n := range []int{1023, 1024, 1025, 2048, 4095, 4096, 4097, 8192, 16385, 65535, 65536, 65537} {
		for _, i := range []int{-1, 0, 5, 8, 16, 20} {
			f(shape{Fn: "des.Enc", K: 16, N: -1, D: -1, I: i, T: n, Act: "request"})
			f(shape{Fn: "des.Dec", K: 16, N: -1, D: n, I: i, Act: "request"})
			for _, k := range sizes3 {
				f(shape{Fn: "aes.Enc", K: k, N: 12, D: -1, I: i, T: n, Fmt: aesTypes[k], Act: "request"})
				f(shape{Fn: "aes.Dec", K: k, N: 12, D: n, I: i, Fmt: aesTypes[k], Act: "request"})
			}
		}
		f(shape{Fn: "des.Mac", K: 16, N: -1, D: -1, I: -1, T: n, Act: "request"})
		for _, k := range sizes3 {
			f(shape{Fn: "aes.Cmac", K: k, N: 12, D: -1, I: -1, T: n, Fmt: aesTypes[k], Act: "request"})
			f(shape{Fn: "aes.Hmac", K: k, N: 12, D: -1, I: -1, T: n, Fmt: hmacTypes[k], Act: "request"})
		}
		f(shape{Fn: "pkg.HexEnc", K: -1, N: -1, D: n, I: -1})
		f(shape{Fn: "pkg.HexDec", K: -1, N: -1, D: -1, I: -1, T: n})
	}
}

type shapeCase struct {
	Shape    shape
	Big      bool
	Thorough bool
	ShardI   int
	ShardN   int
}

// exploreShapes runs the shapes of a shard in order, then in reverse order, and demands the same answers: what a call
// answers may not depend on which calls came before.
func exploreShapes(thorough bool, shardI, shardN int, busy func(shapeCase) bool, bad func(shapeCase, error) bool) (n int64) {
	for _, big := range []bool{false, true} {
		var list []shape
		k := 0
		take := func(s shape) {
			if k%shardN == shardI {
				list = append(list, s)
			}
			k++
		}
		a := newArena(shapeMax)
		if big {
			enumBigShapes(take)
			a = newArena(66000)
		} else {
			enumShapes(thorough, take)
		}
		ans := make([]uint64, len(list))
		var prev calls.Result
		var kept []byte
		for pass := 0; pass < 2; pass++ {
			for j := range list {
				i := j
				if pass == 1 {
					i = len(list) - 1 - j
				}
				sc := shapeCase{Shape: list[i], Big: big, Thorough: thorough, ShardI: shardI, ShardN: shardN}
				if j&63 == 0 && !busy(sc) {
					return
				}
				h, err := runShape(a, list[i], &prev, &kept)
				if err == nil && pass == 1 && h != ans[i] {
					err = fmt.Errorf("%s answers differently after other calls than before them", brief(list[i]))
				}
				if err != nil {
					prev, kept = calls.Result{}, nil
					if !bad(sc, err) {
						return
					}
				}
				ans[i] = h
				if pass == 0 {
					n++
				}
			}
		}
	}
	return
}

func runShapes(r *core.Run) {
	n := exploreShapes(r.Thorough, r.ShardI, r.ShardN, func(c shapeCase) bool {
		r.Busy(0, "shape", c.Shape.Fn, c)
		return !r.Stopped()
	}, func(c shapeCase, err error) bool {
		r.Violate("shape", fmt.Sprint("shape:", brief(c.Shape)), err.Error(), c)
		return r.Violations() < 2
	})
	r.Eval(n)
	r.DistinctN(n)
	r.Count("argument_shapes", n)
}

func replayShape(_ *core.Run, data json.RawMessage) error {
	var c shapeCase
	if err := json.Unmarshal(data, &c); err != nil {
		return err
	}
	Fill.v.Store(seqFill)
	max := shapeMax
	if c.Big {
		max = 66000
	}
	var prev calls.Result
	var kept []byte
	if _, err := runShape(newArena(max), c.Shape, &prev, &kept); err != nil {
		return err
	}
	var found error
	exploreShapes(c.Thorough, c.ShardI, c.ShardN, func(shapeCase) bool { return true }, func(_ shapeCase, err error) bool { found = err; return false })
	return found
}
