package checks

import (
	"bytes"
	"encoding/binary"
	"fmt"
	"math/bits"
	"sync"
	"sync/atomic"

	"github.com/moov-io/dukpt/pkg"
	"github.com/moov-io/dukpt/pkg/des"

	"verif.local/h/calls"
	"verif.local/h/core"
	"verif.local/h/ref"
)

type C = calls.Call
type emit = func(calls.Call) bool

func init() {
	reg("C01", c01)
	reg("C02", c02)
	reg("C03", c03)
	reg("C04", c04)
	regL("C05", "model_checking", c05)
	regL("C06", "model_checking", c06)
	reg("C07", c07)
	regL("C08", "model_checking", c08)
}

func reg(id string, f func(*core.Run)) { regL(id, "exploration", f) }
func regL(id, level string, f func(*core.Run)) {
	core.Register(&core.Check{ID: id, Level: level, Run: func(r *core.Run) { r.Rule(rule); f(r) }, Replay: stdReplay})
}

// sizes emits fn over all key and KSN sizes.
func sizes(e emit, fn string, maxKey int, ksns ...int) {
	for k := -1; k <= maxKey; k++ {
		for _, n := range ksns {
			var key, ksn []byte
			if k >= 0 {
				key = pattern(k, 7)
			}
			if n >= 0 {
				ksn = pattern(n, 9)
			}
			if !e(C{Fn: fn, Key: key, Ksn: ksn}) {
				return
			}
		}
	}
	for _, w := range wraps([]int{7, 8, 13, 16}, []int{0, 1, 8, 10, 12, 16, 24, 32}) {
		for _, n := range []int{8, 10, 12} {
			e(C{Fn: fn, Key: pattern(w, 7), Ksn: pattern(n, 9)})
		}
		for _, k := range sizes3 {
			e(C{Fn: fn, Key: pattern(k, 7), Ksn: pattern(w, 9)})
		}
	}
}

func upto(a, b int) (o []int) {
	for ; a <= b; a++ {
		o = append(o, a)
	}
	return
}

func c01(r *core.Run) {
	litCalls(r, "des.IK")
	runCalls(r, func(e emit) {
		sizes(e, "des.IK", 40, upto(1, 24)...)
		for _, big := range []int{64, 100, 255, 256, 257, 65536} {
			e(C{Fn: "des.IK", Key: pattern(16, 1), Ksn: pattern(big, 1)})
			e(C{Fn: "des.IK", Key: pattern(big, 1), Ksn: pattern(10, 1)})
		}
		// every KSN length x single byte deviations x all base keys
		for _, k := range desKeys() {
			for n := 1; n <= 10; n++ {
				for _, b := range desKsns() {
					dev1(b[10-n:], func(x []byte) bool { return e(C{Fn: "des.IK", Key: k, Ksn: x}) })
					dev1(b[:n], func(x []byte) bool { return e(C{Fn: "des.IK", Key: k, Ksn: x}) })
				}
			}
		}
		for _, ksn := range desKsns() {
			for _, k := range desKeys() {
				dev1(k, func(x []byte) bool { return e(C{Fn: "des.IK", Key: x, Ksn: ksn}) })
			}
			bits2(stdBDK, func(x []byte) bool { return e(C{Fn: "des.IK", Key: x, Ksn: ksn}) })
			weakKeys(func(x []byte) bool { return e(C{Fn: "des.IK", Key: x, Ksn: ksn}) })
		}
		// two-byte deviations: all values of the KSN
		dev2(stdKSN, pick(r, allVals, stride(allVals, 3)), func(x []byte) bool { return e(C{Fn: "des.IK", Key: stdBDK, Ksn: x}) })
		dev2(stdBDK, pick(r, allVals, someVals), func(x []byte) bool { return e(C{Fn: "des.IK", Key: x, Ksn: stdKSN}) })
	})
	// the 21 counter bits never matter: all 2^21 of them
	for _, k := range desKeys()[:pickN(r, 8, 2)] {
		for _, base := range desKsns()[:pickN(r, 7, 2)] {
			want := ref.TdesIK(k, base)
			r.Parallel(1<<9, func(w, i int) {
				for tc := uint32(i) << 12; tc < uint32(i+1)<<12; tc++ {
					ksn := ref.TdesSetTC(base, tc)
					got, err := des.DerivationOfInitialKey(k, ksn)
					if err != nil || !bytes.Equal(got, want) {
						violateCall(r, C{Fn: "des.IK", Key: k, Ksn: ksn}, fmt.Errorf("initial key for counter %06x is %x (%v), want %x", tc, got, err, want))
						return
					}
				}
				r.Eval(1 << 12)
				r.Count("counters_checked", 1<<12)
			})
		}
	}
}

func pick[T any](r *core.Run, thorough, quick []T) []T {
	if r.Thorough {
		return thorough
	}
	return quick
}
func pickN(r *core.Run, thorough, quick int) int {
	if r.Thorough {
		return thorough
	}
	return quick
}

// stride takes every k-th value plus the interesting ones.
func stride(v []byte, k int) []byte {
	m := map[byte]bool{}
	var o []byte
	add := func(b byte) {
		if !m[b] {
			m[b] = true
			o = append(o, b)
		}
	}
	for _, b := range someVals {
		add(b)
	}
	for i := 0; i < len(v); i += k {
		add(v[i])
	}
	return o
}

// all 2^21 counters through the derivation tree: the reference needs one step per node.
func desTree(r *core.Run, ik, base []byte, what string) {
	// roots: the top 8 counter bits; each worker explores the 2^13 low subtree in Gray-free recursive order
	r.Parallel(256, func(w, i int) {
		tc := uint32(i) << 13
		k := append([]byte{}, ik...)
		reg := uint32(0)
		for b := 20; b >= 13; b-- {
			if tc>>uint(b)&1 == 1 {
				reg |= 1 << uint(b)
				k = ref.TdesStep(k, ref.TdesSetTC(base, reg)[2:])
			}
		}
		var n int64
		var walk func(k []byte, tc uint32, bit int) bool
		walk = func(k []byte, tc uint32, bit int) bool {
			// leaf for this node: counter tc exactly
			c := C{Fn: "des.TK", Key: ik, Ksn: ref.TdesSetTC(base, tc)}
			if n&255 == 0 {
				r.Busy(w, "call", c.Fn, CallEnv{Call: c})
			}
			res := calls.Exec(&c)
			n++
			if !res.OK || !bytes.Equal(res.B, k) {
				violateCall(r, C{Fn: "des.TK", Key: ik, Ksn: ref.TdesSetTC(base, tc)}, fmt.Errorf("%s counter %06x: transaction key %s, want %x", what, tc, res, k))
				return false
			}
			for b := bit - 1; b >= 0; b-- {
				t := tc | 1<<uint(b)
				if !walk(ref.TdesStep(k, ref.TdesSetTC(base, t)[2:]), t, b) {
					return false
				}
			}
			return !r.Stopped()
		}
		walk(k, tc, 13)
		r.Eval(n)
		r.Count("counter_tree_nodes", n)
		r.DistinctN(n)
	})
}

func c02(r *core.Run) {
	litCalls(r, "des.TK")
	ik := hexb("6AC292FAA1315B4D858AB3A3D7D5933A")
	desTree(r, ik, cp(stdKSN), "standard device")
	r.Sample("des.TK for all 2^21 counters of initial key 6ac292faa1315b4d858ab3a3d7d5933a, device ffff9876543210e")
	if r.Thorough {
		for i, k := range desKeys() {
			desTree(r, k, desKsns()[i%7], fmt.Sprintf("device %d", i))
		}
	}
	tcs := []uint32{0, 1, 2, 3, 0xFF, 0x100, 0xFFF, 0x8000, 0x10000, 0x10001, 0xFFFFF, 0x100000, 0x1FF800, 0x1FFFFF, 0x155555, 0x0AAAAA}
	runCalls(r, func(e emit) {
		sizes(e, "des.TK", 40, upto(1, 24)...)
		for _, big := range []int{64, 255, 256, 65536} {
			e(C{Fn: "des.TK", Key: pattern(16, 1), Ksn: pattern(big, 1)})
			e(C{Fn: "des.TK", Key: pattern(big, 1), Ksn: pattern(10, 1)})
		}
		for _, k := range desKeys() {
			for n := 1; n <= 10; n++ {
				for _, b := range desKsns() {
					dev1(b[10-n:], func(x []byte) bool { return e(C{Fn: "des.TK", Key: k, Ksn: x}) })
				}
			}
			for _, b := range desKsns() {
				for _, tc := range tcs {
					for n := 3; n <= 10; n++ {
						e(C{Fn: "des.TK", Key: k, Ksn: ref.TdesSetTC(b, tc)[10-n:]})
					}
				}
			}
		}
		for _, tc := range tcs {
			ksn := ref.TdesSetTC(stdKSN, tc)
			dev1(ik, func(x []byte) bool { return e(C{Fn: "des.TK", Key: x, Ksn: ksn}) })
			dev1(rep(0, 16), func(x []byte) bool { return e(C{Fn: "des.TK", Key: x, Ksn: ksn}) })
		}
		bits2(ik, func(x []byte) bool { return e(C{Fn: "des.TK", Key: x, Ksn: ref.TdesSetTC(stdKSN, 0x155555)}) })
		for _, tc := range tcs {
			weakKeys(func(x []byte) bool { return e(C{Fn: "des.TK", Key: x, Ksn: ref.TdesSetTC(stdKSN, tc)}) })
		}
		dev2(stdKSN, pick(r, allVals, stride(allVals, 17)), func(x []byte) bool { return e(C{Fn: "des.TK", Key: ik, Ksn: x}) })
		dev2(ik, someVals, func(x []byte) bool { return e(C{Fn: "des.TK", Key: x, Ksn: ref.TdesSetTC(stdKSN, 0xE00F)}) })
		// counters with at most 3 or at least 18 set bits and short windows, for all base keys
		for _, k := range desKeys() {
			for tc := uint32(0); tc < 1<<21; tc++ {
				p := bits.OnesCount32(tc)
				if p <= 3 || p >= 19 || tc&(tc+(tc&-tc)) == 0 { // few bits, many bits, one run of ones
					if !e(C{Fn: "des.TK", Key: k, Ksn: ref.TdesSetTC(pattern(10, 11), tc)}) {
						return
					}
				}
			}
		}
	})
}

func c03(r *core.Run) {
	litCalls(r, "aes.IK")
	runCalls(r, func(e emit) {
		sizes(e, "aes.IK", 48, -1, 0, 1, 2, 3, 4, 5, 6, 7, 8, 12)
		for _, big := range []int{64, 128, 255, 256, 257, 65536} {
			e(C{Fn: "aes.IK", Key: pattern(big, 1), Ksn: pattern(8, 1)})
		}
		for _, n := range []int{16, 24, 32} {
			for _, k := range aesKeys(n) {
				for _, b := range aesKsns() {
					for _, l := range []int{8, 12} {
						dev1(b[:l], func(x []byte) bool { return e(C{Fn: "aes.IK", Key: k, Ksn: x}) })
						dev1(k, func(x []byte) bool { return e(C{Fn: "aes.IK", Key: x, Ksn: b[:l]}) })
					}
				}
			}
			bits2(aesBDK3[:n], func(x []byte) bool { return e(C{Fn: "aes.IK", Key: x, Ksn: aesKSN}) })
			dev2(aesKSN, pick(r, allVals, stride(allVals, 9)), func(x []byte) bool { return e(C{Fn: "aes.IK", Key: aesBDK3[:n], Ksn: x}) })
			dev2(aesBDK3[:n], pick(r, stride(allVals, 3), someVals), func(x []byte) bool { return e(C{Fn: "aes.IK", Key: x, Ksn: aesKSN[:8]}) })
		}
	})
}

// aesTree walks all extensions of counter tc below bit and judges each.
func aesTree(r *core.Run, w int, ik, base []byte, k []byte, tc uint32, bit int, n *int64) bool {
	c := C{Fn: "aes.TK", Key: ik, Ksn: putTC(base, tc)}
	if *n&255 == 0 {
		r.Busy(w, "call", c.Fn, CallEnv{Call: c})
	}
	res := calls.Exec(&c)
	*n++
	if !res.OK || !bytes.Equal(res.B, k) {
		violateCall(r, C{Fn: "aes.TK", Key: ik, Ksn: putTC(base, tc)}, fmt.Errorf("AES-%d counter %08x: transaction key %s, want %x", len(ik)*8, tc, res, k))
		return false
	}
	for b := bit - 1; b >= 0; b-- {
		t := tc | 1<<uint(b)
		if !aesTree(r, w, ik, base, ref.AesStep(k, base, t), t, b, n) {
			return false
		}
	}
	return !r.Stopped()
}

func c04(r *core.Run) {
	litCalls(r, "aes.TK")
	low := pickN(r, 22, 18)
	for _, n := range []int{16, 24, 32} {
		for ki, ik := range aesKeys(n)[:pickN(r, 3, 1)] {
			base := aesKsns()[ki*3]
			split := 8
			r.Parallel(1<<split, func(w, i int) {
				tc := uint32(i) << (low - split)
				k := ref.AesTK(ik, putTC(base, tc))
				var cnt int64
				aesTree(r, w, ik, base, k, tc, low-split, &cnt)
				r.Eval(cnt)
				r.Count("counter_tree_nodes", cnt)
			})
		}
	}
	r.Set("counter_tree", fmt.Sprintf("all counters below 2^%d, three key sizes", low))
	runCalls(r, func(e emit) {
		sizes(e, "aes.TK", 48, upto(-1, 24)...)
		for _, n := range []int{16, 24, 32} {
			for _, big := range []int{48, 64, 128, 255, 256, 65536} {
				e(C{Fn: "aes.TK", Key: pattern(n, 1), Ksn: pattern(big, 1)})
				e(C{Fn: "aes.TK", Key: pattern(big, 1), Ksn: pattern(12, 1)})
			}
			ik := aesBDK3[:n]
			// sparse and dense counters
			var rec func(tc uint32, from, left int) bool
			rec = func(tc uint32, from, left int) bool {
				if !e(C{Fn: "aes.TK", Key: ik, Ksn: putTC(aesKSN, tc)}) || !e(C{Fn: "aes.TK", Key: ik, Ksn: putTC(aesKSN, ^tc)}) {
					return false
				}
				if left == 0 {
					return true
				}
				for b := from; b < 32; b++ {
					if !rec(tc|1<<uint(b), b+1, left-1) {
						return false
					}
				}
				return true
			}
			rec(0, 0, pickN(r, 5, 3))
			// every window of counter bits, surrounded by zeros and by ones
			win := pickN(r, 16, 13)
			for off := 0; off+win <= 32; off++ {
				for v := 0; v < 1<<win; v++ {
					if !e(C{Fn: "aes.TK", Key: ik, Ksn: putTC(aesKsns()[3], uint32(v)<<off)}) {
						return
					}
					if v&0xF == 0xF { // the rest set
						e(C{Fn: "aes.TK", Key: ik, Ksn: putTC(aesKsns()[3], ^(uint32(v) << off))})
					}
				}
			}
			// every upper half of the counter, with the lower halves that matter
			lows := []uint32{0, 1, 0x8000, 0xFFFF, 0x00FF, 0x5555}
			for v := uint32(0); v < 1<<16; v++ {
				for _, l := range lows[:pickN(r, 6, 3)] {
					if !e(C{Fn: "aes.TK", Key: ik, Ksn: putTC(aesKsns()[5], v<<16|l)}) {
						return
					}
				}
			}
			tcs := []uint32{0, 1, 3, 0xFFFF, 0x10000, 0x80000000, 0xFFFF0000, 0xAAAA5555, 0xFFFFFFFF}
			for _, k := range aesKeys(n) {
				for _, tc := range tcs {
					for _, b := range aesKsns() {
						dev1(putTC(b, tc)[:8], func(x []byte) bool {
							return e(C{Fn: "aes.TK", Key: k, Ksn: append(x, byte(tc>>24), byte(tc>>16), byte(tc>>8), byte(tc))})
						})
						if !r.Thorough {
							break
						}
					}
				}
			}
			for _, tc := range tcs {
				dev1(ik, func(x []byte) bool { return e(C{Fn: "aes.TK", Key: x, Ksn: putTC(aesKSN, tc)}) })
			}
			bits2(ik, func(x []byte) bool { return e(C{Fn: "aes.TK", Key: x, Ksn: putTC(aesKSN, 0x80010003)}) })
			dev2(aesKSN, pick(r, stride(allVals, 3), stride(allVals, 24)), func(x []byte) bool { return e(C{Fn: "aes.TK", Key: ik, Ksn: x}) })
		}
	})
}

// ---- counters ----

func c05(r *core.Run) {
	litCalls(r, "pkg.NextDes")
	// every counter value as a state, the real function as the transition relation
	next := make([]uint32, 1<<21+1) // 0 = none
	for tc := 1<<21 - 2; tc >= 0; tc-- {
		if ref.TdesValidTC(uint32(tc + 1)) {
			next[tc] = uint32(tc + 1)
		} else {
			next[tc] = next[tc+1]
		}
	}
	bases := [][]byte{stdKSN, rep(0, 10), rep(0xFF, 10), pattern(10, 5), stdKSN[1:], stdKSN[2:], stdKSN[3:], stdKSN[4:], stdKSN[5:], stdKSN[6:]}
	if r.Thorough {
		for n := 4; n <= 10; n++ {
			bases = append(bases, rep(0, n), rep(0xFF, n), pattern(n, 1), pattern(n, 2), pattern(n, 3))
		}
	}
	var states, trans atomic.Int64
	for bi, base := range bases {
		step := uint32(1)
		r.Parallel(1<<9, func(w, i int) {
			var nt int64
			for tc := uint32(i) << 12; tc < uint32(i+1)<<12; tc += step {
				c := C{Fn: "pkg.NextDes", Ksn: ref.TdesSetTC(base, tc)}
				if tc&255 == 0 {
					r.Busy(w, "call", c.Fn, CallEnv{Call: cloneCall(c)})
				}
				res := calls.Exec(&c)
				nt++
				bad := ""
				if next[tc] == 0 {
					if res.OK || res.B != nil || res.Panic != "" {
						bad = "an error and no key serial number"
					}
				} else if !res.OK || !bytes.Equal(res.B, ref.TdesSetTC(base, next[tc])) {
					bad = fmt.Sprintf("%x", ref.TdesSetTC(base, next[tc]))
				}
				if bad != "" {
					violateCall(r, C{Fn: "pkg.NextDes", Ksn: ref.TdesSetTC(base, tc)}, fmt.Errorf("next of %x is %s, want %s", ref.TdesSetTC(base, tc), res, bad))
					return
				}
			}
			trans.Add(nt)
			if bi == 0 {
				states.Add(nt)
			}
			r.Eval(nt)
		})
		r.Sample(fmt.Sprintf("all 2^21 counters of %x...", base))
	}
	// the whole chain on the real code, each answer feeding the next call
	chains := int64(0)
	for _, base := range [][]byte{stdKSN, pattern(4, 2)} {
		cur := ref.TdesSetTC(base, 0)
		n := int64(0)
		var prev uint32
		for !r.Stopped() {
			c := C{Fn: "pkg.NextDes", Ksn: cp(cur)}
			res := calls.Exec(&c)
			if !res.OK {
				break
			}
			tc := ref.TdesTC(res.B)
			if tc <= prev || !ref.TdesValidTC(tc) || len(res.B) != len(base) || !bytes.Equal(ref.TdesSetTC(res.B, 0), ref.TdesSetTC(base, 0)) {
				violateCall(r, C{Fn: "pkg.NextDes", Ksn: cp(cur)}, fmt.Errorf("chain step %d from %x gives %x", n, cur, res.B))
				break
			}
			prev = tc
			cur = cp(res.B)
			n++
		}
		if n != 1048575 && !r.Stopped() {
			violateCall(r, C{Fn: "pkg.NextDes", Ksn: cp(cur)}, fmt.Errorf("the chain from counter 0 visits %d key serial numbers, want 1048575 (stopped at %x)", n, cur))
		}
		for i := 0; i < 3; i++ {
			if _, err := judge(C{Fn: "pkg.NextDes", Ksn: cp(cur)}); err != nil {
				violateCall(r, C{Fn: "pkg.NextDes", Ksn: cp(cur)}, err)
			}
		}
		r.Eval(n)
		trans.Add(n)
		chains++
		r.Count("chain_steps", n)
	}
	runCalls(r, func(e emit) {
		for n := 4; n <= 10; n++ {
			dev1(pattern(n, 4), func(x []byte) bool { return e(C{Fn: "pkg.NextDes", Ksn: x}) })
			e(C{Fn: "pkg.NextDes", Ksn: pattern(n, 4)})
		}
		// device bits x boundary counters
		for _, tc := range []uint32{0, 1, 0x3FF, 0x7FE, 0x7FF, 0xFFFFF, 0x100000, 0x1FF7FF, 0x1FF800, 0x1FF801, 0x1FFFFF} {
			for n := 4; n <= 10; n++ {
				dev1(ref.TdesSetTC(pattern(n, 6), tc), func(x []byte) bool { return e(C{Fn: "pkg.NextDes", Ksn: x}) })
			}
			dev2(ref.TdesSetTC(stdKSN, tc), pick(r, stride(allVals, 3), someVals), func(x []byte) bool { return e(C{Fn: "pkg.NextDes", Ksn: x}) })
		}
	})
	r.Set("states", states.Load())
	r.Set("transitions", trans.Load())
	r.Set("traces_validated_against_impl", chains)
}

// forAll32 walks all 2^32 counters downwards per shard with the next valid counter at hand.
func forAll32(r *core.Run, f func(w int, tc, next uint32, has bool) bool) {
	const shard = 1 << 20
	r.Parallel(1<<12, func(w, i int) {
		hi := uint64(i+1)*shard - 1
		// next valid above hi: linear scan
		var nx uint32
		has := false
		for t := hi + 1; t < 1<<32; t++ {
			if bits.OnesCount32(uint32(t)) <= 16 {
				nx, has = uint32(t), true
				break
			}
		}
		for t := int64(hi); t >= int64(hi)-shard+1; t-- {
			if !f(w, uint32(t), nx, has) {
				return
			}
			if t != 0 && bits.OnesCount32(uint32(t)) <= 16 {
				nx, has = uint32(t), true
			}
		}
		r.Eval(shard)
	})
}

func c06(r *core.Run) {
	litCalls(r, "pkg.NextAes")
	base := pattern(12, 5)
	var bad sync.Once
	forAll32(r, func(w int, tc, nx uint32, has bool) bool {
		var b [12]byte
		copy(b[:], base)
		binary.BigEndian.PutUint32(b[8:], tc)
		if tc&0xFFFF == 0 {
			r.Busy(w, "call", "pkg.NextAes", CallEnv{Call: C{Fn: "pkg.NextAes", Ksn: putTC(base, tc)}})
		}
		got, err := pkg.GenerateNextAesKsn(b[:])
		ok := false
		if has {
			ok = err == nil && len(got) == 12 && binary.BigEndian.Uint32(got[8:]) == nx && bytes.Equal(got[:8], base[:8])
		} else {
			ok = err != nil && len(got) == 0
		}
		if !ok {
			bad.Do(func() {
				violateCall(r, C{Fn: "pkg.NextAes", Ksn: putTC(base, tc)}, fmt.Errorf("next of counter %08x is %x (%v), want %08x (exists: %v)", tc, got, err, nx, has))
			})
			r.Partial("stopped at the first violation")
			return false
		}
		return true
	})
	n := r.Evals()
	r.Set("states", n)
	// chains on the real code across interesting regions
	chains := int64(0)
	starts := []uint32{0, 0xFF00, 0xFFF0, 0x1FFF0, 0x7FFFFF00, 0xFFFEFF00, 0xFFFE0000, 0xFFFF0000 - 2000, 0x0FFFFF00}
	for _, s := range starts {
		cur := putTC(base, s)
		for i := 0; i < pickN(r, 5000000, 200000) && !r.Stopped(); i++ {
			c := C{Fn: "pkg.NextAes", Ksn: cp(cur)}
			w := calls.WantOf(&c)
			res := calls.Exec(&c)
			if err := w.Check(res); err != nil {
				violateCall(r, C{Fn: "pkg.NextAes", Ksn: cp(cur)}, err)
				break
			}
			r.Eval(1)
			if !res.OK {
				break
			}
			cur = cp(res.B)
		}
		chains++
		r.Sample(fmt.Sprintf("chain from counter %08x ending at %x", s, cur))
	}
	runCalls(r, func(e emit) {
		e(C{Fn: "pkg.NextAes", Ksn: rep(0, 12)})
		e(C{Fn: "pkg.NextAes", Ksn: rep(0xFF, 12)})
		for n := 12; n <= 12; n++ {
			dev1(pattern(n, 8), func(x []byte) bool { return e(C{Fn: "pkg.NextAes", Ksn: x}) })
		}
		for _, tc := range []uint32{0, 1, 0xFFFE, 0xFFFF, 0x10000, 0x1FFFE, 0x7FFF8000, 0xFFFEFFFF, 0xFFFF0000, 0xFFFF0001, 0xFFFFFFFF} {
			dev1(putTC(aesKSN, tc), func(x []byte) bool { return e(C{Fn: "pkg.NextAes", Ksn: x}) })
			dev2(putTC(aesKSN, tc), pick(r, stride(allVals, 3), someVals), func(x []byte) bool { return e(C{Fn: "pkg.NextAes", Ksn: x}) })
		}
	})
	r.Set("transitions", r.Evals())
	r.Set("traces_validated_against_impl", chains)
}

func c07(r *core.Run) {
	litCalls(r, "pkg.ValidAes", "pkg.TcAes", "pkg.TcDes")
	base := pattern(12, 5)
	other := rep(0xFF, 12)
	var bad sync.Once
	// validity and counter read for all 2^32 counters
	r.Parallel(1<<12, func(w, i int) {
		var b, o [12]byte
		copy(b[:], base)
		copy(o[:], other)
		for t := uint64(i) << 20; t < uint64(i+1)<<20; t++ {
			tc := uint32(t)
			if tc&0xFFFF == 0 {
				r.Busy(w, "call", "pkg.ValidAes", CallEnv{Call: C{Fn: "pkg.ValidAes", Ksn: putTC(base, tc)}})
			}
			binary.BigEndian.PutUint32(b[8:], tc)
			binary.BigEndian.PutUint32(o[8:], tc)
			want := tc != 0 && bits.OnesCount32(tc) <= 16
			if pkg.IsValidAesKsn(b[:]) != want || pkg.IsValidAesKsn(o[:]) != want || pkg.GetAesTcFromKsn(b[:]) != tc {
				bad.Do(func() {
					for _, fn := range []string{"pkg.ValidAes", "pkg.TcAes"} {
						for _, bb := range [][]byte{base, other} {
							c := C{Fn: fn, Ksn: putTC(bb, tc)}
							if _, err := judge(c); err != nil {
								violateCall(r, C{Fn: fn, Ksn: putTC(bb, tc)}, err)
							}
						}
					}
				})
				r.Partial("stopped at the first violation")
				return
			}
		}
		r.Eval(3 << 20)
		r.Count("aes_counters", 1<<20)
	})
	// TDES counter read: all values of the last three bytes, all lengths
	for n := 4; n <= 10; n++ {
		for _, bb := range [][]byte{pattern(n, 5), rep(0, n), rep(0xFF, n)} {
			r.Parallel(1<<8, func(w, i int) {
				b := cp(bb)
				for v := uint32(i) << 16; v < uint32(i+1)<<16; v++ {
					b[n-1], b[n-2], b[n-3] = byte(v), byte(v>>8), byte(v>>16)
					if pkg.GetDesTcFromKsn(b) != v&0x1FFFFF {
						violateCall(r, C{Fn: "pkg.TcDes", Ksn: cp(b)}, fmt.Errorf("counter of %x read as %x", b, pkg.GetDesTcFromKsn(b)))
						return
					}
				}
				r.Eval(1 << 16)
			})
		}
	}
	runCalls(r, func(e emit) {
		for _, fn := range []string{"pkg.ValidAes", "pkg.TcAes", "pkg.TcDes"} {
			e(C{Fn: fn})
			for n := 0; n <= 24; n++ {
				for _, b := range [][]byte{pattern(n, 4), rep(0, n), rep(0xFF, n)} {
					e(C{Fn: fn, Ksn: b})
					dev1(b, func(x []byte) bool { return e(C{Fn: fn, Ksn: x}) })
				}
			}
			dev2(aesKSN, pick(r, allVals, stride(allVals, 7)), func(x []byte) bool { return e(C{Fn: fn, Ksn: x}) })
			dev2(stdKSN, pick(r, allVals, stride(allVals, 7)), func(x []byte) bool { return e(C{Fn: fn, Ksn: x}) })
		}
	})
	r.Sample("IsValidAesKsn, GetAesTcFromKsn on all 2^32 counters; GetDesTcFromKsn on all 2^24 last-three-byte values, lengths 4..10")
}

// ---- key uniqueness along a device's life ----

type keySet struct {
	sh [256]struct {
		mu sync.Mutex
		m  map[string]uint64
	}
}

func newKeySet() *keySet {
	k := &keySet{}
	for i := range k.sh {
		k.sh[i].m = map[string]uint64{}
	}
	return k
}

// add returns the earlier owner if the key was seen under another identity.
func (k *keySet) add(key []byte, owner uint64) (uint64, bool) {
	s := &k.sh[key[0]]
	s.mu.Lock()
	defer s.mu.Unlock()
	if o, ok := s.m[string(key)]; ok {
		return o, o != owner
	}
	s.m[string(key)] = owner
	return 0, false
}

type dupData struct {
	A, B calls.Call
}

func c08(r *core.Run) {
	var states, trans atomic.Int64
	ik1 := hexb("6AC292FAA1315B4D858AB3A3D7D5933A")
	type dev struct {
		ik, ksn []byte
		limit   uint32
	}
	devs := []dev{
		{ik1, stdKSN, 1 << 21},
		{ik1, hexb("FFFF9876543211000000"), 1 << 16},
		{ik1, hexb("FFFF9876543210C00000"), 1 << 14},
		{pattern(16, 8), stdKSN, 1 << 16},
		{rep(0, 16), rep(0, 10), 1 << 14},
	}
	if r.Thorough {
		for i := range devs {
			devs[i].limit = 1 << 21
		}
	}
	set := newKeySet()
	mk := func(i int, tc uint32) calls.Call {
		return C{Fn: "des.TK", Key: devs[i].ik, Ksn: ref.TdesSetTC(devs[i].ksn, tc)}
	}
	for i, d := range devs {
		if o, dup := set.add(d.ik, uint64(i)<<32); dup && !bytes.Equal(devs[o>>32].ik, d.ik) {
			panic("harness: bad device table")
		}
		// walk the device's own history with the real next function inside each shard
		const shard = 1 << 11
		r.Parallel(int(d.limit/shard), func(w, s int) {
			tc := uint32(s * shard)
			cur := ref.TdesSetTC(d.ksn, tc)
			if s > 0 && ref.TdesValidTC(tc) {
				cur = ref.TdesSetTC(d.ksn, tc-1)
			}
			for {
				nc := C{Fn: "pkg.NextDes", Ksn: cp(cur)}
				res := calls.Exec(&nc)
				if !res.OK || len(res.B) != 10 {
					if _, ok := ref.TdesNextTC(ref.TdesTC(cur)); ok {
						violateCall(r, C{Fn: "pkg.NextDes", Ksn: cp(cur)}, fmt.Errorf("device history cannot continue from %x: %s", cur, res))
					}
					break
				}
				cur = cp(res.B)
				t := ref.TdesTC(cur)
				if t >= uint32((s+1)*shard) || t < tc {
					break
				}
				tc = t
				kc := mk(i, t)
				kr := calls.Exec(&kc)
				if !kr.OK || len(kr.B) != 16 {
					violateCall(r, mk(i, t), fmt.Errorf("no transaction key at counter %06x: %s", t, kr))
					return
				}
				states.Add(1)
				trans.Add(2)
				r.Eval(1)
				if o, dup := set.add(kr.B, uint64(i)<<32|uint64(t)); dup {
					a, b := mk(i, t), mk(int(o>>32), uint32(o))
					r.Violate("dup", "dup:"+a.String()+b.String(), fmt.Sprintf("two transactions share transaction key %x: %s and %s", kr.B, a, b), dupData{a, b})
					return
				}
			}
		})
		r.Sample(fmt.Sprintf("life of device %x up to counter %06x under initial key %x", d.ksn, d.limit, d.ik))
	}
	// AES
	for _, n := range []int{16, 24, 32} {
		set := newKeySet()
		adevs := []dev{{aesBDK3[:n], aesKSN, 0}, {aesBDK3[:n], hexb("123456789012345700000001"), 0}, {aesBDK3[:n], hexb("123456799012345600000001"), 0}, {pattern(n, 8), aesKSN, 0}}
		mk := func(i int, tc uint32) calls.Call {
			return C{Fn: "aes.TK", Key: adevs[i].ik, Ksn: putTC(adevs[i].ksn, tc)}
		}
		// initial key ID bytes 0..3 do not enter the key derivation of a given initial key: devices 0 and 2 differ there as well
		// as nowhere else only if they share those bytes; keep to devices differing in the derivation ID
		span := uint32(pickN(r, 1<<20, 1<<15))
		starts := []uint32{0, 0x10000 - span/2, 0x7FFFF000, 0x80000000, 0xFFFF0000 - span/2, 0x00FF0000}
		for i, d := range adevs {
			if i == 2 {
				continue
			}
			set.add(d.ik, uint64(i)<<32)
			for _, st := range starts {
				const shards = 16
				r.Parallel(shards, func(w, s int) {
					lo := st + uint32(s)*(span/shards)
					hi := uint64(lo) + uint64(span/shards)
					cur := putTC(d.ksn, lo)
					for k := 0; ; k++ {
						nc := C{Fn: "pkg.NextAes", Ksn: cp(cur)}
						res := calls.Exec(&nc)
						if !res.OK || len(res.B) != 12 {
							if _, ok := ref.AesNextTC(ref.AesTC(cur)); ok {
								violateCall(r, C{Fn: "pkg.NextAes", Ksn: cp(cur)}, fmt.Errorf("device history cannot continue from %x: %s", cur, res))
							}
							break
						}
						cur = cp(res.B)
						t := ref.AesTC(cur)
						if uint64(t) > hi || t <= lo && k > 0 {
							break
						}
						kc := mk(i, t)
						kr := calls.Exec(&kc)
						if !kr.OK || len(kr.B) != n {
							violateCall(r, mk(i, t), fmt.Errorf("no %d-byte transaction key at counter %08x: %s", n, t, kr))
							return
						}
						states.Add(1)
						trans.Add(2)
						r.Eval(1)
						if o, dup := set.add(kr.B, uint64(i)<<32|uint64(t)); dup {
							a, b := mk(i, t), mk(int(o>>32), uint32(o))
							r.Violate("dup", "dup:"+a.String()+b.String(), fmt.Sprintf("two transactions share transaction key %x: %s and %s", kr.B, a, b), dupData{a, b})
							return
						}
					}
				})
			}
		}
		// sparse counters: all with at most 4 (5) bits, and single bits in every position against the initial key
		r.Parallel(32, func(w, hb int) {
			var rec func(tc uint32, below, left int) bool
			rec = func(tc uint32, below, left int) bool {
				kc := mk(0, tc)
				kr := calls.Exec(&kc)
				states.Add(1)
				trans.Add(1)
				r.Eval(1)
				if !kr.OK || len(kr.B) != n {
					violateCall(r, mk(0, tc), fmt.Errorf("no key: %s", kr))
					return false
				}
				if o, dup := set.add(kr.B, uint64(tc)); dup {
					a, b := mk(0, tc), mk(int(o>>32), uint32(o))
					r.Violate("dup", "dup:"+a.String()+b.String(), fmt.Sprintf("two transactions share transaction key %x: %s and %s", kr.B, a, b), dupData{a, b})
					return false
				}
				if left == 0 {
					return true
				}
				for b := below - 1; b >= 0; b-- {
					if !rec(tc|1<<uint(b), b, left-1) {
						return false
					}
				}
				return true
			}
			rec(1<<uint(hb), hb, pickN(r, 5, 3))
		})
	}
	// nearby devices and nearby machines: at the same counter all keys differ
	nearby := func(fn string, keys, ksns [][]byte) {
		seen := map[string]calls.Call{}
		for _, k := range keys {
			for _, s := range ksns {
				c := C{Fn: fn, Key: k, Ksn: s}
				res := calls.Exec(&c)
				r.Eval(1)
				trans.Add(1)
				if !res.OK {
					violateCall(r, C{Fn: fn, Key: k, Ksn: s}, fmt.Errorf("no key: %s", res))
					return
				}
				id := C{Fn: fn, Key: k, Ksn: s}
				if o, ok := seen[string(res.B)]; ok {
					r.Violate("dup", "dup:"+id.String()+o.String(), fmt.Sprintf("two devices share a transaction key: %s and %s", id, o), dupData{id, o})
					return
				}
				seen[string(res.B)] = id
			}
		}
	}
	single := func(base []byte, from, to int, mask func(i, b int) bool) (o [][]byte) {
		for i := from; i < to; i++ {
			for b := 0; b < 8; b++ {
				if mask(i, b) {
					x := cp(base)
					x[i] ^= 1 << b
					o = append(o, x)
				}
			}
		}
		return append(o, cp(base))
	}
	bases := [][]byte{stdKSN, hexb("FFFF9876543210000000"), hexb("FFFF9876543210200000"), hexb("FFFF9876543210600000"), hexb("FFFF9876543280000000"), rep(0, 10), rep(0xFF, 10)}
	for _, tc := range []uint32{1, 2, 0xFFF, 0x10000, 0x100001, 0x1FF800} {
		// every device at one and at two bits' distance of each base, all pairs compared
		for _, base := range bases {
			bit := func(i, b int) bool { return i < 7 || b >= 5 }
			var near [][]byte
			known := map[string]bool{}
			for _, x := range single(ref.TdesSetTC(base, tc), 2, 8, bit) {
				for _, y := range single(x, 2, 8, bit) {
					if !known[string(y)] {
						known[string(y)] = true
						near = append(near, y)
					}
				}
			}
			nearby("des.TK", [][]byte{ik1, pattern(16, 8)}, near)
		}
		nearby("des.TK", single(ik1, 0, 16, func(i, b int) bool { return b > 0 }), [][]byte{ref.TdesSetTC(stdKSN, tc)}) // bit 0 of a DES key byte is parity
	}
	for _, n := range []int{16, 24, 32} {
		for _, tc := range []uint32{1, 2, 0xFFFF, 0x10000, 0x80000000, 0xFFFF0000} {
			for _, base := range [][]byte{aesKSN, rep(0, 12), rep(0xFF, 12)} {
				nearby("aes.TK", [][]byte{aesBDK3[:n]}, single(putTC(base, tc), 4, 8, func(i, b int) bool { return true }))
			}
			nearby("aes.TK", single(aesBDK3[:n], 0, n, func(i, b int) bool { return true }), [][]byte{putTC(aesKSN, tc)})
		}
	}
	// devices under one base key: initial key, then transaction key
	under := func(ikfn, tkfn string, bdk []byte, ksns [][]byte) {
		seen := map[string]calls.Call{}
		for _, s := range ksns {
			a := C{Fn: ikfn, Key: cp(bdk), Ksn: cp(s)}
			ik := calls.Exec(&a)
			if !ik.OK {
				violateCall(r, C{Fn: ikfn, Key: bdk, Ksn: s}, fmt.Errorf("no key: %s", ik))
				return
			}
			c := C{Fn: tkfn, Key: cp(ik.B), Ksn: cp(s)}
			tk := calls.Exec(&c)
			r.Eval(2)
			trans.Add(2)
			id := C{Fn: tkfn, Key: ik.B, Ksn: s}
			if !tk.OK {
				violateCall(r, id, fmt.Errorf("no key: %s", tk))
				return
			}
			for _, k := range [][]byte{ik.B, tk.B} {
				o, ok := seen[string(k)]
				if ok && o.String() != id.String() || bytes.Equal(ik.B, tk.B) {
					r.Violate("dup", "dup:"+id.String()+o.String(), fmt.Sprintf("two devices under one base key share key %x: %s and %s", k, id, o), dupData{id, o})
					return
				}
				seen[string(k)] = id
			}
		}
	}
	for _, tc := range []uint32{1, 0xFFF, 0x100001} {
		for _, base := range bases {
			under("des.IK", "des.TK", stdBDK, single(ref.TdesSetTC(base, tc), 0, 8, func(i, b int) bool { return i < 7 || b >= 5 }))
		}
	}
	for _, n := range []int{16, 24, 32} {
		for _, tc := range []uint32{1, 0xFFFF, 0x80000001} {
			under("aes.IK", "aes.TK", aesBDK3[:n], single(putTC(aesKSN, tc), 0, 8, func(i, b int) bool { return true }))
		}
	}
	r.Set("states", states.Load())
	r.Set("transitions", trans.Load())
	r.Set("traces_validated_against_impl", states.Load())
	r.Rule("a state is a device at one counter value, reached with the real next-KSN function; in every state the real transaction key is compared with all earlier keys")
}
