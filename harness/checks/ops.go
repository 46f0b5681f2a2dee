package checks

import (
	"bytes"
	"fmt"
	"slices"
	"strings"

	"verif.local/h/calls"
	"verif.local/h/core"
	"verif.local/h/ref"
)

func init() {
	reg("C09", c09)
	reg("C10", c10)
	reg("C11", c11)
	reg("C12", c12)
	reg("C13", c13)
	reg("C14", c14)
	reg("C15", c15)
	reg("C28", c28)
}

var actions = []string{"request", "response", "", "Response", "RESPONSE", "Request", "resp", "response ", "respons", "\x00", "request/response", "decrypt", "re\u017fponse", "RE\u017fPON\u017fE", "reque\u017ft", "\uff52esponse"}
var aesTypes = map[int]string{16: "AES128", 24: "AES192", 32: "AES256"}
var hmacTypes = map[int]string{16: "HMAC128", 24: "HMAC192", 32: "HMAC256"}
var keyTypes = []string{"AES128", "AES192", "AES256", "HMAC128", "HMAC192", "HMAC256", "", "aes128", "aes192", "aes256", "hmac128", "TDES2", "TDES3", "AES", "HMAC", "AES512", "AES128 ", "AES-128"}
var sizes3 = []int{16, 24, 32}

// chainCalls runs pairs: encrypt on the real code, then feed the real answer to the real inverse.
type pairCase struct {
	Enc  calls.Call
	Dec  calls.Call // Data is filled from the result of Enc
	Want string     // exact
	Fill uint32
}

func runPairs(r *core.Run, gen func(emit func(pairCase) bool)) {
	ts := tallies(r)
	n := 0
	core.Feed(r, func(emit func(pairCase) bool) {
		gen(func(p pairCase) bool {
			if n%20011 == 5 {
				r.Sample("round trip " + p.Enc.String())
			}
			n++
			p.Enc, p.Dec = cloneCall(p.Enc), cloneCall(p.Dec)
			p.Fill = Fill.v.Load()
			return emit(p)
		})
	}, func(w int, p pairCase) {
		e := cloneCall(p.Enc)
		res := handleCall(r, w, &ts[w], e)
		if !res.OK {
			if res.Panic == "" {
				violateCall(r, p.Enc, fmt.Errorf("%s: %s, want a result", p.Enc, res))
			}
			return
		}
		d := cloneCall(p.Dec)
		d.Data = cp(res.B)
		back := handleCall(r, w, &ts[w], cloneCall(d))
		if !back.OK || back.S != p.Want {
			r.Violate("pair", "pair:"+p.Enc.String(), fmt.Sprintf("%s gives %s, which decrypts to %s, want %q", p.Enc, res, back, p.Want), p)
		}
		ts[w].add("round trips")
	})
	for i := range ts {
		r.Outcomes(ts[i].m)
	}
}

// texts: all lengths 0..n of several patterns, plus big ones.
func texts(n int, big []int, f func(string) bool) bool {
	gens := []func(int) string{
		func(n int) string { return string(pattern(n, 1)) },
		func(n int) string { return strings.Repeat("\x00", n) },
		func(n int) string { return strings.Repeat("\xff", n) },
		func(n int) string { return strings.Repeat("4012345678909D987é", n/10+1)[:n] },
	}
	for l := 0; l <= n; l++ {
		for _, g := range gens {
			if !f(g(l)) {
				return false
			}
		}
	}
	for _, l := range big {
		if !f(gens[0](l)) {
			return false
		}
	}
	return true
}

var bigLens = []int{127, 128, 129, 255, 256, 257, 511, 512, 513, 1000, 1023, 1024, 1025, 2047, 2048, 2049, 4095, 4096, 4097, 8191, 8192, 8193, 16384, 32767, 32768, 65535, 65536, 65537, 100003}
var hugeLens = []int{262144, 1 << 20, 1<<20 + 1, 4<<20 + 7}

func ivs(block int) [][]byte {
	o := [][]byte{nil, {}}
	for n := 1; n <= block*2+2; n++ {
		o = append(o, pattern(n, 6))
	}
	return append(o, rep(0, block), rep(0xFF, block), pattern(100, 1), rep(0, block-1), pattern(4096, 1))
}

// related emits initial vectors and texts that repeat each other, themselves or the key.
func related(block int, key []byte, f func(iv []byte, t string) bool) {
	b := pattern(block, 9)
	inv := cp(b)
	for i := range inv {
		inv[i] ^= 0xFF
	}
	key = append(cp(key), key...)
	for _, iv := range [][]byte{nil, b, inv, key[:block], key[8 : 8+block]} {
		for _, x := range [][]byte{b, inv, key[:block], rep(0, block)} {
			for _, y := range [][]byte{nil, b, x, inv, rep(0, block)} {
				for _, z := range [][]byte{nil, b, y, pattern(3, 1)} {
					t := append(append(append([]byte{}, x...), y...), z...)
					if !f(iv, string(t)) || !f(iv, string(t[:len(t)-1])) {
						return
					}
				}
			}
		}
	}
}

// textMarks are byte sequences that programs are tempted to interpret, to strip or to translate.
func textMarks() (o []string) {
	for k := 1; k <= 16; k++ { // the ends of common paddings
		o = append(o, strings.Repeat(string([]byte{byte(k)}), k), strings.Repeat("\x00", k-1)+string([]byte{byte(k)}), "\x80"+strings.Repeat("\x00", k-1))
	}
	return append(o, " ", "  ", "\t", "\n", "\r\n", "\r", "\x00", "\x00\x00", "\x1a", "\x04", "\xff", "\xff\xff", "=", "==", "%", "%s", "%00", "%41", "\\", "\\n", "\\x41", "\\u0041", "\"", "'", "\"\"", "\xef\xbb\xbf", "\xfe\xff", "\xff\xfe", "\u00e9", "e\u0301",
		"\u212b", "\ufb01", "\uff11", "\u0661", "\u00a0", "\u200b", "\u2028", "\ufffd", "\U0001f600", "\xc3", "\xc3\x28", "\xed\xa0\x80", "\xf8\x88\x80\x80", "0x", "0X", "hex:", "base64:", "x'", "#", "//", "/*", "--", "@", "&amp;", "&#65;", "<![CDATA[", "]]>", "{}", "[]", "null",
		"true", "0", "00", "F", "FF", "ff", "41", "4141", "QUFB", "QQ==", ";", "?", "^", "=?", ":", ",", "\x02", "\x03", "\x1c", "%B", "D", "+", "-", "nil", "<nil>", "NaN", "\x1b[0m", "\x7f", "\x0e", "\x08")
}

// marked emits texts in which the marks stand at the front, at the end, inside and around, next to every length of other text,
// and texts of several marks.
func marked(maxLen int, f func(string) bool) bool {
	ms := textMarks()
	for _, m := range ms {
		for _, fill := range []string{"4012345678909D987654321012345678", "abcdefghijklmnopqrstuvwxyzABCDEFG", "0011223344556677889900aabbccddeeff"} {
			for n := 0; n <= maxLen; n++ {
				p := fill[:n]
				if !f(m+p) || !f(p+m) || !f(m+p+m) || !f(p[:n/2]+m+p[n/2:]) {
					return false
				}
			}
			for b := 8; b <= 32; b += 8 { // the mark ends exactly at a block
				if len(m) < b && !f(fill[:b-len(m)]+m) {
					return false
				}
			}
		}
	}
	for _, a := range ms {
		for _, b := range ms {
			if !f(a+b) || !f(a+"401234567890"+b) {
				return false
			}
		}
	}
	return true
}

// runeTexts emits texts of every length counted in characters, of characters of every size and of bytes that are no character.
func runeTexts(max int, f func(string) bool) bool {
	bad := []string{"", "\xff", "\xc3", "\xe2\x82", "\xf0\x9f\x98", "\xed\xa0\x80", "\x80", "\x00"}
	for n := 1; n <= max; n++ {
		for _, c := range []string{"a", "\u00e4", "\u20ac", "\U0001f600"} {
			same := strings.Repeat(c, n)
			for _, b := range bad {
				if !f(same+b) || !f(b+same) || !f(same[:len(c)*(n/2)]+b+same[len(c)*(n/2):]) {
					return false
				}
			}
			ascii := strings.Repeat("7", n-1)
			if !f(c+ascii) || !f(ascii+c) || !f(ascii[:n/2]+c+ascii[n/2:]) {
				return false
			}
			for _, b := range bad[1:] {
				if n > 1 && (!f(c+ascii[1:]+b) || !f(b+ascii[1:]+c)) {
					return false
				}
			}
		}
	}
	return true
}

func padTo(s string, n int) string { return s + strings.Repeat("\x00", (n-len(s)%n)%n) }

func c12(r *core.Run) {
	litCalls(r, "des.Enc", "des.Dec")
	keys := desKeys()
	mk := func(k, iv []byte, t, act string) pairCase {
		return pairCase{Enc: C{Fn: "des.Enc", Key: k, IV: iv, Text: t, Act: act}, Dec: C{Fn: "des.Dec", Key: k, IV: iv, Act: act}, Want: padTo(t, 8)}
	}
	runPairs(r, func(e func(pairCase) bool) {
		// every IV shape x every text length x direction
		for _, iv := range ivs(8) {
			for _, a := range []string{"request", "response", ""} {
				if !texts(pickN(r, 200, 40), nil, func(t string) bool { return e(mk(stdBDK, iv, t, a)) }) {
					return
				}
			}
		}
		for _, a := range actions {
			for _, k := range keys {
				texts(pickN(r, 80, 26), nil, func(t string) bool { return e(mk(k, pattern(8, 2), t, a)) })
			}
		}
		for _, n := range bigLens {
			for _, a := range []string{"request", "response"} {
				e(mk(stdBDK, nil, string(pattern(n, 1)), a))
				e(mk(stdBDK, pattern(5, 1), string(pattern(n, 3)), a))
			}
		}
		for _, n := range hugeLens {
			e(mk(stdBDK, pattern(8, 1), string(pattern(n, 1)), "request"))
		}
		for _, a := range []string{"request", "response"} {
			for _, k := range keys {
				dev1(k, func(x []byte) bool { return e(mk(x, pattern(8, 2), "some data 1234", a)) })
				dev1(pattern(8, 2), func(x []byte) bool { return e(mk(k, x, "some data 1234567", a)) })
			}
			for l := 1; l <= pickN(r, 64, 33); l++ {
				dev1(pattern(l, 4), func(x []byte) bool { return e(mk(stdBDK, nil, string(x), a)) })
			}
			for l := 1; l <= 18; l++ {
				dev1(pattern(l, 6), func(x []byte) bool { return e(mk(stdBDK, x, "some data 1234567", a)) })
				for v := 0; v < 256; v++ {
					e(mk(stdBDK, rep(byte(v), l), "some data 1234567", a))
					e(mk(stdBDK, nil, string(rep(byte(v), l)), a))
				}
			}
			related(8, stdBDK, func(iv []byte, t string) bool { return e(mk(stdBDK, iv, t, a)) })
			marked(17, func(t string) bool { return e(mk(stdBDK, nil, t, a)) })
			runeTexts(pickN(r, 140, 50), func(t string) bool { return e(mk(stdBDK, nil, t, a)) })
			runeTexts(17, func(t string) bool { return e(mk(stdBDK, []byte(t), "some data 1234567", a)) })
			for _, m := range textMarks() { // initial vectors of the same kind
				for n := 0; n <= 9; n++ {
					e(mk(stdBDK, []byte(m+"12345678"[:min(n, 8)]), "some data 1234567", a))
					e(mk(stdBDK, []byte("12345678"[:min(n, 8)]+m), "some data 1234567", a))
				}
			}
			bits2(stdBDK, func(x []byte) bool { return e(mk(x, nil, "12345678", a)) })
			weakUse(func(x []byte) bool { return e(mk(x, pattern(8, 2), "some data 123", a)) })
			dev2(pattern(8, 2), pick(r, stride(allVals, 5), someVals), func(x []byte) bool { return e(mk(stdBDK, x, "0123456789", a)) })
			dev2(pattern(16, 2), someVals, func(x []byte) bool { return e(mk(stdBDK, pattern(8, 1), string(x), a)) })
		}
	})
	runCalls(r, func(e emit) {
		for k := -1; k <= 40; k++ {
			var key []byte
			if k >= 0 {
				key = pattern(k, 1)
			}
			for _, a := range actions[:3] {
				for _, iv := range [][]byte{nil, pattern(3, 1), pattern(8, 1), pattern(9, 1)} {
					e(C{Fn: "des.Enc", Key: key, IV: iv, Text: "text of some size", Act: a})
					e(C{Fn: "des.Dec", Key: key, IV: iv, Data: pattern(24, 1), Act: a})
					e(C{Fn: "des.Dec", Key: key, IV: iv, Act: a})
				}
			}
		}
		for n := 0; n <= 130; n++ {
			for _, iv := range ivs(8) {
				for _, a := range actions[:3] {
					e(C{Fn: "des.Dec", Key: stdBDK, IV: iv, Data: pattern(n, 3), Act: a})
				}
			}
		}
		dev1(pattern(24, 1), func(x []byte) bool { return e(C{Fn: "des.Dec", Key: stdBDK, Data: x, Act: "request"}) })
	})
}

func c13(r *core.Run) {
	litCalls(r, "aes.Enc", "aes.Dec")
	mk := func(k, ksn, iv []byte, t, act string) pairCase {
		ty := aesTypes[len(k)]
		return pairCase{Enc: C{Fn: "aes.Enc", Key: k, Ksn: ksn, IV: iv, Text: t, Act: act, Fmt: ty},
			Dec: C{Fn: "aes.Dec", Key: k, Ksn: ksn, IV: iv, Act: act, Fmt: ty}, Want: padTo(t, 16)}
	}
	runPairs(r, func(e func(pairCase) bool) {
		for _, n := range sizes3 {
			k := aesBDK3[:n]
			for _, iv := range ivs(16) {
				for _, a := range []string{"request", "response", ""} {
					if !texts(pickN(r, 200, 40), nil, func(t string) bool { return e(mk(k, aesKSN, iv, t, a)) }) {
						return
					}
				}
			}
			for _, a := range actions {
				for _, kk := range aesKeys(n) {
					for _, ksn := range aesKsns() {
						texts(pickN(r, 66, 18), nil, func(t string) bool { return e(mk(kk, ksn, pattern(16, 2), t, a)) })
					}
				}
			}
			for _, l := range bigLens {
				for _, a := range []string{"request", "response"} {
					e(mk(k, aesKSN, nil, string(pattern(l, 1)), a))
					e(mk(k, aesKSN, pattern(5, 1), string(pattern(l, 3)), a))
				}
			}
			for _, l := range hugeLens {
				e(mk(k, aesKSN, pattern(16, 1), string(pattern(l, 1)), "response"))
			}
			for _, a := range []string{"request", "response"} {
				for _, kk := range aesKeys(n)[:pickN(r, 6, 3)] {
					dev1(kk, func(x []byte) bool { return e(mk(x, aesKSN, pattern(16, 2), "some data 1234", a)) })
					dev1(pattern(16, 2), func(x []byte) bool { return e(mk(kk, aesKSN, x, "some data 123456789", a)) })
				}
				for _, ksn := range aesKsns() {
					dev1(ksn, func(x []byte) bool { return e(mk(k, x, nil, "some data", a)) })
				}
				for l := 1; l <= pickN(r, 80, 33); l++ {
					dev1(pattern(l, 4), func(x []byte) bool { return e(mk(k, aesKSN, nil, string(x), a)) })
				}
				for l := 1; l <= 34; l++ {
					dev1(pattern(l, 6), func(x []byte) bool { return e(mk(k, aesKSN, x, "some data 123456789", a)) })
					for v := 0; v < 256; v++ {
						e(mk(k, aesKSN, rep(byte(v), l), "some data 123456789", a))
						e(mk(k, aesKSN, nil, string(rep(byte(v), l)), a))
					}
				}
				related(16, k, func(iv []byte, t string) bool { return e(mk(k, aesKSN, iv, t, a)) })
				marked(17, func(t string) bool { return e(mk(k, aesKSN, nil, t, a)) })
				runeTexts(pickN(r, 140, 50), func(t string) bool { return e(mk(k, aesKSN, nil, t, a)) })
				runeTexts(17, func(t string) bool { return e(mk(k, aesKSN, []byte(t), "some data 123456789", a)) })
				for _, m := range textMarks() {
					for i := 0; i <= 17; i++ {
						e(mk(k, aesKSN, []byte(m+"1234567890abcdefg"[:i]), "some data 123456789", a))
						e(mk(k, aesKSN, []byte("1234567890abcdefg"[:i]+m), "some data 123456789", a))
					}
				}
				related(16, aesKSN, func(iv []byte, t string) bool { return e(mk(k, aesKSN, iv, t, a)) })
				bits2(k, func(x []byte) bool { return e(mk(x, aesKSN, nil, "12345678", a)) })
				dev2(aesKSN, pick(r, stride(allVals, 9), someVals), func(x []byte) bool { return e(mk(k, x, nil, "0123456789", a)) })
			}
		}
	})
	runCalls(r, func(e emit) {
		// key size x KSN size x key type
		for kl := -1; kl <= 40; kl++ {
			for nl := 12; nl <= 12; nl++ {
				for _, ty := range keyTypes {
					var key, ksn []byte
					if kl >= 0 {
						key = pattern(kl, 1)
					}
					if nl >= 0 {
						ksn = pattern(nl, 1)
					}
					if !e(C{Fn: "aes.Enc", Key: key, Ksn: ksn, Text: "data", Fmt: ty, Act: "request"}) ||
						!e(C{Fn: "aes.Dec", Key: key, Ksn: ksn, Data: pattern(32, 1), Fmt: ty, Act: "response"}) {
						return
					}
				}
			}
		}
		for n := 0; n <= 130; n++ {
			for _, iv := range ivs(16) {
				for _, s := range sizes3 {
					e(C{Fn: "aes.Dec", Key: aesBDK3[:s], Ksn: aesKSN, IV: iv, Data: pattern(n, 3), Act: actions[n%3], Fmt: aesTypes[s]})
				}
			}
		}
		for _, s := range sizes3 {
			dev1(pattern(32, 1), func(x []byte) bool {
				return e(C{Fn: "aes.Dec", Key: aesBDK3[:s], Ksn: aesKSN, Data: x, Act: "request", Fmt: aesTypes[s]})
			})
		}
	})
}

func c14(r *core.Run) {
	litCalls(r, "des.Mac")
	runCalls(r, func(e emit) {
		mk := func(k []byte, t, a string) bool { return e(C{Fn: "des.Mac", Key: k, Text: t, Act: a}) }
		for _, a := range actions {
			for _, k := range desKeys() {
				if !texts(pickN(r, 600, 140), bigLens, func(t string) bool { return mk(k, t, a) }) {
					return
				}
			}
		}
		for _, n := range hugeLens {
			mk(stdBDK, string(pattern(n, 1)), "request")
			mk(stdBDK, string(pattern(n, 1)), "response")
		}
		for _, a := range []string{"request", "response", "x"} {
			for _, k := range desKeys() {
				dev1(k, func(x []byte) bool { return mk(x, "4012345678909D987", a) })
				for l := 1; l <= pickN(r, 80, 33); l++ {
					dev1(pattern(l, 4), func(x []byte) bool { return mk(k, string(x), a) })
				}
			}
			bits2(stdBDK, func(x []byte) bool { return mk(x, "4012345678909D987", a) })
			weakUse(func(x []byte) bool { return mk(x, "4012345678909D987", a) })
			if a != "x" {
				marked(24, func(t string) bool { return mk(stdBDK, t, a) })
				runeTexts(pickN(r, 140, 66), func(t string) bool { return mk(stdBDK, t, a) })
			}
			dev2(pattern(24, 1), pick(r, stride(allVals, 17), someVals), func(x []byte) bool { return mk(stdBDK, string(x), a) })
			// every byte of long messages
			for _, l := range []int{64, 129, 1025, 4097} {
				b := pattern(l, 5)
				for i := 0; i < l; i++ {
					x := cp(b)
					x[i] ^= 1
					mk(stdBDK, string(x), a)
				}
			}
		}
		for k := -1; k <= 64; k++ {
			var key []byte
			if k >= 0 {
				key = pattern(k, 1)
			}
			for _, a := range actions {
				for _, t := range []string{"", "a", "12345678", "123456789"} {
					mk(key, t, a)
				}
			}
		}
	})
}

func c15(r *core.Run) {
	litCalls(r, "aes.Cmac", "aes.Hmac")
	runCalls(r, func(e emit) {
		for _, fn := range []string{"aes.Cmac", "aes.Hmac"} {
			ty := aesTypes
			if fn == "aes.Hmac" {
				ty = hmacTypes
			}
			for _, n := range sizes3 {
				mk := func(k, ksn []byte, t, a string) bool {
					return e(C{Fn: fn, Key: k, Ksn: ksn, Text: t, Act: a, Fmt: ty[n]})
				}
				for _, a := range actions {
					for _, k := range aesKeys(n) {
						if !texts(pickN(r, 400, 70), nil, func(t string) bool { return mk(k, aesKSN, t, a) }) {
							return
						}
					}
					texts(0, bigLens, func(t string) bool { return mk(aesBDK3[:n], aesKSN, t, a) })
				}
				for _, h := range hugeLens {
					mk(aesBDK3[:n], aesKSN, string(pattern(h, 1)), "response")
				}
				for _, a := range []string{"request", "response", "x"} {
					if a != "x" {
						marked(24, func(t string) bool { return mk(aesBDK3[:n], aesKSN, t, a) })
						runeTexts(pickN(r, 140, 66), func(t string) bool { return mk(aesBDK3[:n], aesKSN, t, a) })
					}
					for _, k := range aesKeys(n) {
						dev1(k, func(x []byte) bool { return mk(x, aesKSN, "4012345678909D987", a) })
					}
					for _, ksn := range aesKsns() {
						dev1(ksn, func(x []byte) bool { return mk(aesBDK3[:n], x, "4012345678909D987", a) })
					}
					for l := 1; l <= pickN(r, 80, 40); l++ {
						dev1(pattern(l, 4), func(x []byte) bool { return mk(aesBDK3[:n], aesKSN, string(x), a) })
					}
					bits2(aesBDK3[:n], func(x []byte) bool { return mk(x, aesKSN, "4012345678909D987", a) })
					dev2(aesKSN, pick(r, stride(allVals, 9), someVals), func(x []byte) bool { return mk(aesBDK3[:n], x, "m", a) })
					for _, l := range []int{64, 65, 129, 1025} {
						b := pattern(l, 5)
						for i := 0; i < l; i++ {
							x := cp(b)
							x[i] ^= 1
							mk(aesBDK3[:n], aesKSN, string(x), a)
						}
					}
				}
			}
			for kl := -1; kl <= 40; kl++ {
				for nl := 12; nl <= 12; nl++ {
					for _, t := range keyTypes {
						var key, ksn []byte
						if kl >= 0 {
							key = pattern(kl, 1)
						}
						if nl >= 0 {
							ksn = pattern(nl, 1)
						}
						e(C{Fn: fn, Key: key, Ksn: ksn, Text: "data", Fmt: t, Act: actions[(kl+nl+2)%3]})
					}
				}
			}
		}
	})
}

// ---- PIN ----

func digits(n, seed int) string {
	b := make([]byte, n)
	for i := range b {
		b[i] = '0' + byte((i*7+seed*3+seed*i)%10)
	}
	return string(b)
}

func pinsOf(n int) []string {
	if n == 0 {
		return []string{""}
	}
	o := []string{strings.Repeat("0", n), strings.Repeat("9", n), digits(n, 1), digits(n, 4)}
	// every single digit in every position
	for i := 0; i < n; i++ {
		for d := byte('0'); d <= '9'; d++ {
			b := []byte(digits(n, 2))
			b[i] = d
			o = append(o, string(b))
		}
	}
	return o
}

// panPrefixes emits account numbers of every length with every start of the given number of digits, and every end of two.
func panPrefixes(min, max, n int, f func(string) bool) bool {
	lim := 1
	for i := 0; i < n; i++ {
		lim *= 10
	}
	for l := min; l <= max; l++ {
		tail := digits(l, 3)
		for p := 0; p < lim; p++ {
			if !f((fmt.Sprintf("%0*d", n, p) + tail[n:])[:l]) {
				return false
			}
		}
		for p := 0; p < 100; p++ {
			if !f(tail[:l-2] + fmt.Sprintf("%02d", p)) {
				return false
			}
		}
	}
	return true
}

// shapedDigits are digit strings of a length in which people see something: runs, repetitions, mirror images, dates, complements.
func shapedDigits(n int) (o []string) {
	for st := 0; st < 10; st++ {
		for step := 0; step < 10; step++ {
			b := make([]byte, n)
			for i := range b {
				b[i] = '0' + byte((st+i*step)%10)
			}
			o = append(o, string(b))
			for i := n/2 + 1; i < n; i++ { // mirror image
				b[i] = b[n-1-i]
			}
			o = append(o, string(b))
		}
	}
	for a := 0; a < 100; a++ { // pairs, quadruples, one digit against the rest
		o = append(o, strings.Repeat(fmt.Sprintf("%02d", a), n)[:n], strings.Repeat(fmt.Sprintf("%d", a/10), n-1)+fmt.Sprintf("%d", a%10), fmt.Sprintf("%d", a/10)+strings.Repeat(fmt.Sprintf("%d", a%10), n-1),
			strings.Repeat(fmt.Sprintf("%d", a/10), n/2)+strings.Repeat(fmt.Sprintf("%d", a%10), n-n/2))
	}
	for z := 0; z <= n; z++ { // zeros and nines at the ends
		o = append(o, strings.Repeat("0", z)+digits(n-z, 1), digits(n-z, 1)+strings.Repeat("0", z), strings.Repeat("9", z)+digits(n-z, 1), digits(n-z, 1)+strings.Repeat("9", z), strings.Repeat("0", z)+strings.Repeat("9", n-z))
	}
	for _, w := range []string{"31121999", "19991231", "00000000001", "18446744073709551615", "9223372036854775807", "9223372036854775808", "4294967295", "4294967296", "2147483647", "2147483648", "4111111111111111", "5500000000000004", "340000000000009"} {
		if len(w) >= n {
			o = append(o, w[:n], w[len(w)-n:])
		}
	}
	return
}

func fills(r *core.Run, f func()) {
	n := uint32(16)
	for v := uint32(0); v <= n && !r.Stopped(); v++ {
		x := v
		if v == n {
			x = 256
		}
		Fill.v.Store(x)
		f()
	}
	Fill.v.Store(256)
}

func mixed(s string) []string { return []string{s, strings.ToLower(s), s[:1] + strings.ToLower(s[1:])} }

func c10(r *core.Run) {
	litCalls(r, "des.EncPin", "des.DecPin")
	k := hexb("042666B49184CFA368DE9628D0397BC9")
	pair := func(k []byte, pin, pan, f string) pairCase {
		return pairCase{Enc: C{Fn: "des.EncPin", Key: k, Text: pin, Pan: pan, Fmt: f}, Dec: C{Fn: "des.DecPin", Key: k, Pan: pan, Fmt: f}, Want: pin}
	}
	fills(r, func() {
		runPairs(r, func(e func(pairCase) bool) {
			for _, f := range ref.FormatNames {
				sp := ref.Formats[f]
				for n := sp.Min; n <= sp.Max; n++ {
					for _, pin := range pinsOf(n) {
						for _, pl := range []int{13, 16, 19} {
							if !e(pair(k, pin, digits(pl, 3), f)) {
								return
							}
						}
					}
					for _, ff := range mixed(f) {
						for pl := 13; pl <= 28; pl++ {
							for _, s := range []int{0, 1, 5} {
								e(pair(k, digits(n, 1), digits(pl, s), ff))
							}
							e(pair(k, digits(n, 1), strings.Repeat("0", pl), ff))
							e(pair(k, digits(n, 1), strings.Repeat("9", pl), ff))
						}
						if !sp.Pan {
							for pl := 0; pl < 13; pl++ {
								e(pair(k, digits(n, 1), digits(pl, 1), ff))
							}
						}
					}
					for _, kk := range desKeys() {
						e(pair(kk, digits(n, 5), digits(16, 1), f))
					}
				}
			}
		})
	})
	// all four-digit PINs in every format; PAN digits one by one; key bytes one by one
	runPairs(r, func(e func(pairCase) bool) {
		for _, f := range ref.FormatNames {
			for p := 0; p < 10000; p++ {
				if !e(pair(k, fmt.Sprintf("%04d", p), "4012345678909", f)) {
					return
				}
			}
			for pos := 0; pos < 16; pos++ {
				for d := 0; d < 10; d++ {
					b := []byte("4012345678909123")
					b[pos] = '0' + byte(d)
					for _, pin := range []string{"1234", "999999", "123456789012"} {
						if len(pin) <= ref.Formats[f].Max {
							e(pair(k, pin, string(b), f))
						}
					}
				}
			}
			for pl := max(5, ref.Formats[f].Min); pl <= ref.Formats[f].Max; pl++ {
				for i := 0; i < pl; i++ {
					for j := i + 1; j < pl; j++ {
						for d := 0; d < 100; d++ {
							b := []byte(digits(pl, 2))
							b[i], b[j] = '0'+byte(d/10), '0'+byte(d%10)
							if !e(pair(k, string(b), "4012345678909", f)) {
								return
							}
						}
					}
				}
			}
			litPins(func(pin, pan string) {
				if pin == "" && len(pan) > 12 {
					e(pair(k, digits(ref.Formats[f].Min, 1), pan, f))
				} else if pin != "" && len(pin) >= ref.Formats[f].Min && len(pin) <= ref.Formats[f].Max {
					e(pair(k, pin, pan, f))
				}
			})
			// five digits (six in one format) completely, then PINs and account numbers with a shape
			if ref.Formats[f].Min <= 5 && ref.Formats[f].Max >= 5 {
				for p := 0; p < 100000; p++ {
					if !e(pair(k, fmt.Sprintf("%05d", p), "4012345678909", f)) {
						return
					}
				}
			}
			for p := 0; f == "ISO-3" && p < 1000000; p++ {
				if !e(pair(k, fmt.Sprintf("%06d", p), "4012345678909", f)) {
					return
				}
			}
			for n := ref.Formats[f].Min; n <= ref.Formats[f].Max; n++ {
				for _, pin := range shapedDigits(n) {
					if n > 0 {
						e(pair(k, pin, "4012345678909", f))
					}
				}
			}
			for n := 13; n <= 22; n++ {
				for _, pan := range shapedDigits(n) {
					e(pair(k, digits(ref.Formats[f].Max, 1), pan, f))
				}
			}
			pin := digits(ref.Formats[f].Min, 1)
			if !panPrefixes(13, 19, pickN(r, 6, 4), func(pan string) bool { return e(pair(k, pin, pan, f)) }) {
				return
			}
			// the account number and the PIN related: one inside the other, the same digits
			for pl := 13; pl <= 19; pl++ {
				for _, s := range []int{0, 3, 7} {
					pan := digits(pl, s)
					for n := ref.Formats[f].Min; n <= ref.Formats[f].Max; n++ {
						for i := 0; i+n <= pl; i++ {
							e(pair(k, pan[i:i+n], pan, f))
						}
					}
				}
			}
			dev1(k, func(x []byte) bool { return e(pair(x, "1234", "4012345678909", f)) })
			weakUse(func(x []byte) bool { return e(pair(x, "1234", "4012345678909", f)) })
			if r.Thorough {
				for p := 0; p < 1000000; p++ {
					if ref.Formats[f].Max >= 6 && !e(pair(k, fmt.Sprintf("%06d", p), "4012345678909", f)) {
						return
					}
				}
			}
		}
	})
	runCalls(r, func(e emit) {
		fm := append(append([]string{}, ref.FormatNames...), "ISO-4", "iso-4", "", "ISO0", "ISO-5", "ISO-9", "X", "VISA5", "ECI5", "ISO-0 ", "ISO_0", "ANSIX", "\x00")
		for _, f := range fm {
			// PIN and PAN lengths
			for pl := 0; pl <= 20; pl++ {
				for al := 0; al <= 24; al++ {
					if !e(C{Fn: "des.EncPin", Key: k, Text: digits(pl, 1), Pan: digits(al, 1), Fmt: f}) {
						return
					}
				}
			}
			for kl := -1; kl <= 40; kl++ {
				var key []byte
				if kl >= 0 {
					key = pattern(kl, 1)
				}
				e(C{Fn: "des.EncPin", Key: key, Text: "1234", Pan: "4012345678909", Fmt: f})
				e(C{Fn: "des.DecPin", Key: key, Data: pattern(8, 1), Pan: "4012345678909", Fmt: f})
			}
			for dl := 0; dl <= 33; dl++ {
				for al := 0; al <= 24; al++ {
					e(C{Fn: "des.DecPin", Key: k, Data: pattern(dl, 1), Pan: digits(al, 2), Fmt: f})
				}
			}
			for _, m := range textMarks() {
				for _, pin := range []string{"1234", "123456", "12345678"} {
					for i := 0; i <= len(pin); i++ {
						e(C{Fn: "des.EncPin", Key: k, Text: pin[:i] + m + pin[i:], Pan: "4012345678909", Fmt: f})
					}
				}
				for i := 0; i <= 16; i++ {
					pan := "4012345678909123"[:i] + m + "4012345678909123"[i:]
					e(C{Fn: "des.EncPin", Key: k, Text: "1234", Pan: pan, Fmt: f})
					e(C{Fn: "des.DecPin", Key: k, Data: pattern(8, 1), Pan: pan, Fmt: f})
				}
			}
			for _, bad := range []string{"12a4", "12 4", "-123", "１２３４", "12\x004", "ABCD", "abcdef", "1234é", "\xff\xfe1234", "+1234", "12.4"} {
				e(C{Fn: "des.EncPin", Key: k, Text: bad, Pan: "4012345678909", Fmt: f})
				e(C{Fn: "des.EncPin", Key: k, Text: "1234", Pan: bad + "4012345678909", Fmt: f})
				e(C{Fn: "des.EncPin", Key: k, Text: "1234", Pan: "40123456" + bad + "78909", Fmt: f})
				e(C{Fn: "des.DecPin", Key: k, Data: pattern(8, 1), Pan: "4012345" + bad + "678909", Fmt: f})
			}
		}
		// decryption of every legal block built by the reference, and of garbage: all first two bytes
		pk := ref.TdesPinKey(k)
		for _, f := range ref.FormatNames {
			sp := ref.Formats[f]
			for n := sp.Min; n <= sp.Max; n++ {
				for fill := 0; fill < 16; fill++ {
					for _, pan := range []string{"4012345678909", "9999999999999999999", "0000000000000"} {
						for _, pin := range []string{digits(n, 1), strings.Repeat("0", n), strings.Repeat("9", n)} {
							blk := ref.MakeBlock(f, pin, pan, byte(fill))
							e(C{Fn: "des.DecPin", Key: k, Data: ref.T2E(pk, blk), Pan: pan, Fmt: f})
							e(C{Fn: "des.DecPin", Key: k, Data: ref.T2E(pk, blk), Pan: pan, Fmt: strings.ToLower(f)})
						}
					}
				}
			}
			for a := 0; a < 256; a++ {
				for b := 0; b < 256; b++ {
					blk := pattern(8, 3)
					blk[0], blk[1] = byte(a), byte(b)
					e(C{Fn: "des.DecPin", Key: k, Data: ref.T2E(pk, blk), Pan: "4012345678909", Fmt: f})
				}
				for _, v := range []byte{0, 0xFF, 0xAA, 0x99} {
					blk := rep(v, 8)
					blk[0] = byte(a)
					e(C{Fn: "des.DecPin", Key: k, Data: ref.T2E(pk, blk), Pan: "0000000000000", Fmt: f})
				}
			}
			blk := ref.MakeBlock(f, digits(4, 1), "4012345678909", 3)
			dev1(blk, func(x []byte) bool {
				return e(C{Fn: "des.DecPin", Key: k, Data: ref.T2E(pk, x), Pan: "4012345678909", Fmt: f})
			})
			dev1(ref.T2E(pk, blk), func(x []byte) bool { return e(C{Fn: "des.DecPin", Key: k, Data: x, Pan: "4012345678909", Fmt: f}) })
		}
	})
}

func c11(r *core.Run) {
	litCalls(r, "aes.EncPin", "aes.DecPin")
	pair := func(k, ksn []byte, pin, pan string) pairCase {
		return pairCase{Enc: C{Fn: "aes.EncPin", Key: k, Ksn: ksn, Text: pin, Pan: pan, Fmt: aesTypes[len(k)]},
			Dec: C{Fn: "aes.DecPin", Key: k, Ksn: ksn, Pan: pan, Fmt: aesTypes[len(k)]}, Want: pin}
	}
	fills(r, func() {
		runPairs(r, func(e func(pairCase) bool) {
			for _, n := range sizes3 {
				for pl := 4; pl <= 12; pl++ {
					for al := 12; al <= 19; al++ {
						for _, pin := range pinsOf(pl) {
							if !e(pair(aesBDK3[:n], aesKSN, pin, digits(al, 1))) {
								return
							}
						}
						for _, k := range aesKeys(n) {
							for _, ksn := range aesKsns() {
								e(pair(k, ksn, digits(pl, 1), digits(al, 2)))
							}
						}
						for _, pan := range pinsOf(al)[:pickN(r, 100, 24)] {
							e(pair(aesBDK3[:n], aesKSN, digits(pl, 1), pan))
						}
					}
				}
			}
		})
	})
	runPairs(r, func(e func(pairCase) bool) {
		for _, n := range sizes3 {
			for p := 0; p < 10000; p++ {
				if !e(pair(aesBDK3[:n], aesKSN, fmt.Sprintf("%04d", p), "4012345678909")) {
					return
				}
			}
			if r.Thorough {
				for p := 0; p < 1000000; p++ {
					if !e(pair(aesBDK3[:n], aesKSN, fmt.Sprintf("%06d", p), "4012345678909")) {
						return
					}
				}
			}
			for p := 0; p < 100000; p++ {
				if !e(pair(aesBDK3[:n], aesKSN, fmt.Sprintf("%05d", p), "4012345678909")) {
					return
				}
			}
			for p := 0; n == 16 && p < 1000000; p++ {
				if !e(pair(aesBDK3[:n], aesKSN, fmt.Sprintf("%06d", p), "4012345678909")) {
					return
				}
			}
			litPins(func(pin, pan string) {
				if pin == "" && len(pan) <= 19 {
					e(pair(aesBDK3[:n], aesKSN, "1234", pan))
				} else if pin != "" && len(pin) <= 12 {
					e(pair(aesBDK3[:n], aesKSN, pin, pan))
				}
			})
			for pl := 4; pl <= 12; pl++ {
				for _, pin := range shapedDigits(pl) {
					e(pair(aesBDK3[:n], aesKSN, pin, "4012345678909"))
				}
			}
			for al := 12; al <= 19; al++ {
				for _, pan := range shapedDigits(al) {
					e(pair(aesBDK3[:n], aesKSN, "12345", pan))
				}
			}
			if !panPrefixes(12, 19, pickN(r, 6, 4), func(pan string) bool { return e(pair(aesBDK3[:n], aesKSN, "1234", pan)) }) {
				return
			}
			for al := 12; al <= 19; al++ {
				for _, s := range []int{0, 3, 7} {
					pan := digits(al, s)
					for pl := 4; pl <= 12; pl++ {
						for i := 0; i+pl <= al; i++ {
							e(pair(aesBDK3[:n], aesKSN, pan[i:i+pl], pan))
						}
					}
				}
			}
			// long PINs: every pair of digits in every pair of positions
			for pl := 5; pl <= 12; pl++ {
				for i := 0; i < pl; i++ {
					for j := i + 1; j < pl; j++ {
						for d := 0; d < 100; d++ {
							b := []byte(digits(pl, 2))
							b[i], b[j] = '0'+byte(d/10), '0'+byte(d%10)
							e(pair(aesBDK3[:n], aesKSN, string(b), "4012345678909"))
						}
					}
				}
			}
			dev1(aesBDK3[:n], func(x []byte) bool { return e(pair(x, aesKSN, "1234", "4012345678909")) })
			dev1(aesKSN, func(x []byte) bool { return e(pair(aesBDK3[:n], x, "1234", "4012345678909")) })
			for al := 12; al <= 19; al++ {
				for pos := 0; pos < al; pos++ {
					for d := 0; d < 10; d++ {
						b := []byte(digits(al, 3))
						b[pos] = '0' + byte(d)
						e(pair(aesBDK3[:n], aesKSN, "123456", string(b)))
					}
				}
			}
		}
	})
	runCalls(r, func(e emit) {
		for _, n := range sizes3 {
			k := aesBDK3[:n]
			for pl := 0; pl <= 20; pl++ {
				for al := 0; al <= 26; al++ {
					if !e(C{Fn: "aes.EncPin", Key: k, Ksn: aesKSN, Text: digits(pl, 1), Pan: digits(al, 1), Fmt: aesTypes[n]}) {
						return
					}
				}
			}
			for dl := 0; dl <= 40; dl++ {
				for al := 0; al <= 26; al++ {
					e(C{Fn: "aes.DecPin", Key: k, Ksn: aesKSN, Data: pattern(dl, 1), Pan: digits(al, 1), Fmt: aesTypes[n]})
				}
			}
			// all clear blocks with arbitrary first two bytes
			wk := ref.AesWork(k, aesKSN, ref.UsePin, false)
			pan := "4012345678909"
			for a := 0; a < 256; a++ {
				for b := 0; b < 256; b += 1 {
					blk := rep(0xAA, 16)
					copy(blk, []byte{byte(a), byte(b), 0x34})
					e(C{Fn: "aes.DecPin", Key: k, Ksn: aesKSN, Data: iso4Wrap(wk, blk, pan), Pan: pan, Fmt: aesTypes[n]})
				}
			}
			for pl := 4; pl <= 12; pl++ {
				for al := 12; al <= 19; al++ {
					for _, rnd := range [][]byte{rep(0, 8), rep(0xFF, 8), pattern(8, 1)} {
						e(C{Fn: "aes.DecPin", Key: k, Ksn: aesKSN, Data: ref.Iso4Enc(wk, digits(pl, 3), digits(al, 4), rnd), Pan: digits(al, 4), Fmt: aesTypes[n]})
					}
				}
			}
			ct := ref.Iso4Enc(wk, "1234", pan, pattern(8, 1))
			dev1(ct, func(x []byte) bool {
				return e(C{Fn: "aes.DecPin", Key: k, Ksn: aesKSN, Data: x, Pan: pan, Fmt: aesTypes[n]})
			})
			for _, m := range textMarks() {
				for _, pin := range []string{"1234", "123456", "12345678"} {
					for i := 0; i <= len(pin); i++ {
						e(C{Fn: "aes.EncPin", Key: k, Ksn: aesKSN, Text: pin[:i] + m + pin[i:], Pan: pan, Fmt: aesTypes[n]})
					}
				}
				for i := 0; i <= 16; i++ {
					x := "4012345678909123"[:i] + m + "4012345678909123"[i:]
					e(C{Fn: "aes.EncPin", Key: k, Ksn: aesKSN, Text: "1234", Pan: x, Fmt: aesTypes[n]})
					e(C{Fn: "aes.DecPin", Key: k, Ksn: aesKSN, Data: ct, Pan: x, Fmt: aesTypes[n]})
				}
			}
			for _, bad := range []string{"12a4", "12 4", "-123", "１２３４", "12\x004", "ABCD", "abcdef", "\xff\xfe1234"} {
				e(C{Fn: "aes.EncPin", Key: k, Ksn: aesKSN, Text: bad, Pan: pan, Fmt: aesTypes[n]})
				e(C{Fn: "aes.EncPin", Key: k, Ksn: aesKSN, Text: "1234", Pan: "4012" + bad + "345678", Fmt: aesTypes[n]})
				e(C{Fn: "aes.DecPin", Key: k, Ksn: aesKSN, Data: ct, Pan: "4012" + bad + "345678", Fmt: aesTypes[n]})
			}
		}
		for kl := -1; kl <= 40; kl++ {
			for nl := 12; nl <= 12; nl++ {
				for _, t := range keyTypes {
					var key, ksn []byte
					if kl >= 0 {
						key = pattern(kl, 1)
					}
					if nl >= 0 {
						ksn = pattern(nl, 1)
					}
					e(C{Fn: "aes.EncPin", Key: key, Ksn: ksn, Text: "1234", Pan: "4012345678909", Fmt: t})
					e(C{Fn: "aes.DecPin", Key: key, Ksn: ksn, Data: pattern(16, 1), Pan: "4012345678909", Fmt: t})
				}
			}
		}
	})
}

func iso4Wrap(key, blk []byte, pan string) []byte {
	return ref.Iso4Wrap(key, blk, pan)
}

// ---- purpose separation ----

func c09(r *core.Run) {
	// every operation under every action on many keys must be the standard's value for its own purpose ...
	type purpose struct {
		name string
		val  []byte
	}
	pairs := int64(0)
	ts := tallies(r)
	sep := func(w int, what string, ps []purpose) {
		for i := range ps {
			for j := i + 1; j < len(ps); j++ {
				if len(ps[i].val) == len(ps[j].val) && bytes.Equal(ps[i].val, ps[j].val) {
					r.Violate("sep", "sep:"+what+ps[i].name+ps[j].name, fmt.Sprintf("%s: %s and %s agree: %x", what, ps[i].name, ps[j].name, ps[i].val), what)
				}
				ts[w].add("pairs compared")
			}
		}
	}
	do := func(w int, c calls.Call) []byte {
		res := handleCall(r, w, &ts[w], cloneCall(c))
		if !res.OK {
			violateCall(r, c, fmt.Errorf("%s: %s, want a result", c, res))
			return nil
		}
		if res.B == nil {
			return []byte(res.S)
		}
		return res.B
	}
	var keys [][]byte
	for _, k := range desKeys()[:7] {
		keys = append(keys, k)
		if r.Thorough {
			dev1(k, func(x []byte) bool { keys = append(keys, x); return true })
		}
	}
	bits2(stdBDK, func(x []byte) bool { keys = append(keys, x); return len(keys) < pickN(r, 100000, 4000) })
	weakKeys(func(x []byte) bool { keys = append(keys, x); return true })
	keys = append(keys, core.Lit().Bytes(stdBDK)...)
	r.Set("rule_of_constants", litRule)
	litActs := actions
	for _, s := range core.Lit().Strings {
		litActs = append(litActs, s, s+"response", "response"+s)
	}
	r.Parallel(len(keys), func(w, i int) {
		k := keys[i]
		for _, msg := range []string{"8bytes!!", "4012345678909D987"} {
			var ps []purpose
			for _, a := range []string{"request", "response"} {
				ps = append(ps, purpose{"mac " + a, do(w, C{Fn: "des.Mac", Key: k, Text: msg, Act: a})})
				ct := do(w, C{Fn: "des.Enc", Key: k, Text: msg, Act: a})
				ps = append(ps, purpose{"data " + a, ct})
				if len(ct) >= 8 {
					ps = append(ps, purpose{"last data block " + a, ct[len(ct)-8:]})
				}
				o := "response"
				if a == "response" {
					o = "request"
				}
				d := C{Fn: "des.Dec", Key: k, Data: cp(ct), Act: o}
				res := calls.Exec(&d)
				if res.OK && strings.HasPrefix(res.S, msg) {
					r.Violate("sep", "sep:dir:"+d.String(), fmt.Sprintf("data encrypted as %s decrypts as %s: %s", a, o, d), d.String())
				}
			}
			// single-block messages: data and last block are the same thing, drop duplicates
			if len(msg) <= 8 {
				ps = []purpose{ps[0], ps[1], ps[3], ps[4]}
			}
			for _, f := range []string{"ISO-0", "ISO-2"} {
				pin := do(w, C{Fn: "des.EncPin", Key: k, Text: "1234", Pan: "4012345678909", Fmt: f})
				blk := ref.MakeBlock(f, "1234", "4012345678909", 0)
				for _, a := range []string{"request", "response"} {
					data := do(w, C{Fn: "des.Enc", Key: k, Text: string(blk), Act: a})
					mac := do(w, C{Fn: "des.Mac", Key: k, Text: string(blk), Act: a})
					sep(w, fmt.Sprintf("TDES key %x, %s PIN block as message", k, f), []purpose{{"pin", pin}, {"data " + a, data}, {"mac " + a, mac}})
				}
			}
			sep(w, fmt.Sprintf("TDES key %x message %q", k, msg), ps)
		}
		acts := actions
		if i < 2 {
			acts = litActs
		}
		for _, a := range acts {
			do(w, C{Fn: "des.Mac", Key: k, Text: "m", Act: a})
			do(w, C{Fn: "des.Enc", Key: k, Text: "m", Act: a})
			do(w, C{Fn: "des.Dec", Key: k, Data: pattern(16, 1), Act: a})
		}
	})
	type ak struct{ k, ksn []byte }
	var aks []ak
	var lit []int // the keys that get the constants as actions
	for _, n := range sizes3 {
		for _, k := range aesKeys(n) {
			for _, s := range aesKsns() {
				aks = append(aks, ak{k, s})
			}
			if r.Thorough {
				dev1(k, func(x []byte) bool { aks = append(aks, ak{x, aesKSN}); return true })
			}
		}
		lit = append(lit, len(aks))
		for _, x := range core.Lit().Bytes(aesBDK3[:n]) {
			aks = append(aks, ak{x, aesKSN})
		}
		for _, x := range core.Lit().Bytes(aesKSN) {
			aks = append(aks, ak{aesBDK3[:n], x})
		}
		c := len(aks)
		dev1(aesBDK3[:n], func(x []byte) bool { aks = append(aks, ak{x, aesKSN}); return len(aks) < c+pickN(r, 100000, 1000) })
		dev1(aesKSN, func(x []byte) bool { aks = append(aks, ak{aesBDK3[:n], x}); return true })
	}
	r.Parallel(len(aks), func(w, i int) {
		k, ksn := aks[i].k, aks[i].ksn
		n := len(k)
		for _, msg := range []string{"sixteen bytes!!!", "4012345678909D9874012345678909D987"} {
			var ps []purpose
			for _, a := range []string{"request", "response"} {
				ps = append(ps, purpose{"cmac " + a, do(w, C{Fn: "aes.Cmac", Key: k, Ksn: ksn, Text: msg, Act: a, Fmt: aesTypes[n]})})
				ps = append(ps, purpose{"hmac " + a, do(w, C{Fn: "aes.Hmac", Key: k, Ksn: ksn, Text: msg, Act: a, Fmt: hmacTypes[n]})})
				ct := do(w, C{Fn: "aes.Enc", Key: k, Ksn: ksn, Text: msg, Act: a, Fmt: aesTypes[n]})
				if len(ct) >= 16 {
					ps = append(ps, purpose{"last data block " + a, ct[len(ct)-16:]})
				}
				o := "response"
				if a == "response" {
					o = "request"
				}
				d := C{Fn: "aes.Dec", Key: k, Ksn: ksn, Data: cp(ct), Act: o, Fmt: aesTypes[n]}
				res := calls.Exec(&d)
				if res.OK && strings.HasPrefix(res.S, msg) {
					r.Violate("sep", "sep:dir:"+d.String(), fmt.Sprintf("data encrypted as %s decrypts as %s: %s", a, o, d), d.String())
				}
			}
			sep(w, fmt.Sprintf("AES key %x ksn %x message %q", k, ksn, msg), ps)
		}
		// PIN: encipher the same two blocks by hand under the data keys and compare
		do(w, C{Fn: "aes.EncPin", Key: k, Ksn: ksn, Text: "1234", Pan: "4012345678909", Fmt: aesTypes[n]})
		acts := actions
		if slices.Contains(lit, i) {
			acts = litActs
		}
		for _, a := range acts {
			do(w, C{Fn: "aes.Cmac", Key: k, Ksn: ksn, Text: "m", Act: a, Fmt: aesTypes[n]})
			do(w, C{Fn: "aes.Hmac", Key: k, Ksn: ksn, Text: "m", Act: a, Fmt: hmacTypes[n]})
			do(w, C{Fn: "aes.Enc", Key: k, Ksn: ksn, Text: "m", Act: a, Fmt: aesTypes[n]})
			do(w, C{Fn: "aes.Dec", Key: k, Ksn: ksn, Data: pattern(16, 1), Act: a, Fmt: aesTypes[n]})
		}
	})
	for i := range ts {
		pairs += ts[i].m["pairs compared"]
		r.Outcomes(ts[i].m)
	}
	r.Set("purpose_pairs_compared", pairs)
	r.Sample("TDES and AES: MAC/data/PIN under both directions and 10 other action strings, for every key of the neighbourhood")
}

// ---- block helpers ----

func c28(r *core.Run) {
	litCalls(r, "enc.AES", "enc.DES", "enc.3DES")
	runCalls(r, func(e emit) {
		fns := []string{"enc.AES", "enc.DES", "enc.3DES"}
		for _, fn := range fns {
			blk := 16
			good := []int{16, 24, 32}
			if fn == "enc.DES" {
				blk, good = 8, []int{8}
			}
			if fn == "enc.3DES" {
				blk, good = 8, []int{16, 24}
			}
			for _, act := range []string{"E", "D"} {
				for k := -1; k <= 70; k++ {
					for n := -1; n <= 70; n++ {
						var key, data []byte
						if k >= 0 {
							key = pattern(k, 1)
						}
						if n >= 0 {
							data = pattern(n, 2)
						}
						if !e(C{Fn: fn, Key: key, Data: data, Act: act}) {
							return
						}
					}
				}
				for _, big := range wraps([]int{7, 8, 10, 13, 16}, []int{0, 8, 16, 24, 32}) {
					e(C{Fn: fn, Key: pattern(big, 1), Data: pattern(blk, 1), Act: act})
					e(C{Fn: fn, Key: pattern(good[0], 1), Data: pattern(big, 1), Act: act})
				}
				for _, n := range good {
					for _, k := range [][]byte{pattern(n, 1), rep(0, n), rep(0xFF, n), append(pattern(n/2, 1), pattern(n/2, 1)...)} {
						dev1(k, func(x []byte) bool { return e(C{Fn: fn, Key: x, Data: pattern(blk, 2), Act: act}) })
						dev1(pattern(blk, 3), func(x []byte) bool { return e(C{Fn: fn, Key: k, Data: x, Act: act}) })
						dev2(pattern(blk, 3), pick(r, stride(allVals, 3), someVals), func(x []byte) bool { return e(C{Fn: fn, Key: k, Data: x, Act: act}) })
						dev2(k, pick(r, stride(allVals, 9), someVals), func(x []byte) bool { return e(C{Fn: fn, Key: x, Data: pattern(blk, 2), Act: act}) })
					}
					bits2(pattern(n, 1), func(x []byte) bool { return e(C{Fn: fn, Key: x, Data: pattern(blk, 2), Act: act}) })
					weakKeys(func(x []byte) bool {
						if n > 16 {
							x = append(x, x[:n-16]...)
						}
						return e(C{Fn: fn, Key: x[:n], Data: pattern(blk, 2), Act: act})
					})
				}
			}
		}
	})
	runHelpers(r)
}
