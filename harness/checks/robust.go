package checks

import (
	"encoding/base64"
	"encoding/hex"
	"encoding/json"
	"fmt"
	"strings"

	"github.com/moov-io/dukpt/pkg/server"

	"verif.local/h/calls"
	"verif.local/h/core"
	"verif.local/h/ref"
)

func init() {
	reg("C16", c16)
	reg("C19", c19)
	core.Checks["C16"].Replay = map[string]func(*core.Run, json.RawMessage) error{"call": func(_ *core.Run, d json.RawMessage) error {
		var e CallEnv
		if err := json.Unmarshal(d, &e); err != nil {
			return err
		}
		Fill.v.Store(e.Fill)
		k := cloneCall(e.Call)
		return calls.WantOf(&k).Robust(calls.Exec(&e.Call))
	}}
}

func runRobust(r *core.Run, gen func(emit func(calls.Call) bool)) {
	ts := tallies(r)
	n := 0
	core.Feed(r, func(emit func(calls.Call) bool) {
		gen(func(c calls.Call) bool {
			if n%60013 == 29 {
				r.Sample(c.String())
			}
			n++
			return emit(cloneCall(c))
		})
	}, func(w int, c calls.Call) {
		if !r.Distinct(callHash(&c)) {
			return
		}
		r.Eval(1)
		keep := cloneCall(c)
		r.Busy(w, "call", c.Fn, CallEnv{Call: keep, Fill: Fill.v.Load()})
		res := calls.Exec(&c)
		want := calls.WantOf(&keep)
		ts[w].add(outcomeOf(&c, &res) + " (specified: " + want.Kind + ")")
		if err := want.Robust(res); err != nil {
			violateCall(r, keep, fmt.Errorf("%s %v", keep.String(), err))
		}
	})
	for i := range ts {
		r.Outcomes(ts[i].m)
	}
}

// wrapSizes are the sizes above a range that equal one of the given sizes modulo that range.
func wrapSizes(r *core.Run, valid ...int) []int {
	return wraps([]int{5, 6, 7, 8, 12, 13, 16, 21}[:pickN(r, 8, 7)], valid)
}

func wraps(bits, valid []int) (o []int) {
	for _, k := range bits {
		for _, v := range valid {
			o = append(o, 1<<k+v)
		}
	}
	return
}

func lenOf(n int, seed byte) []byte {
	if n < 0 {
		return nil
	}
	return pattern(n, seed)
}

var oddStrings = []string{"", "0", "1", "12", "123", "1234", "12345", "123456789012", "1234567890123", strings.Repeat("7", 14), strings.Repeat("7", 15), strings.Repeat("7", 16),
	strings.Repeat("1", 19), strings.Repeat("1", 20), strings.Repeat("1", 40), strings.Repeat("1", 300),
	"abcd", "ABCD", "FFFF", "12a4", "12 34", " 1234", "1234 ", "-1234", "+1234", "1.23", "12\x0034", "\x00\x00\x00\x00", "\xff\xff\xff\xff", "１２３４", "١٢٣٤", "🙂🙂🙂🙂",
	"é123", "1234\n", "%d%s", "0x1234", "FFFFFFFFFFFFFFFF", "AAAAAAAAAAAA", "F1234567890123", "400000000000000G", "４０１２３４５６７８９０９"}

func c16(r *core.Run) {
	litRobust(r)
	deskey, deskeyL := pattern(16, 1), []int{-1, 0, 1, 7, 8, 15, 16, 17, 23, 24, 25, 32, 33, 40}
	if r.Thorough {
		deskeyL = upto(-1, 70)
	}
	fm := append(append([]string{}, ref.FormatNames...), "ISO-4", "", "iso-0", "Visa3", "nope", "ISO-", "ISO-99", "\x00", "éci1", strings.Repeat("A", 300))
	runRobust(r, func(e emit) {
		// sizes
		for _, fn := range []string{"des.IK", "des.TK", "aes.IK", "aes.TK"} {
			sizes(e, fn, 70, upto(-1, 40)...)
			// sizes that equal a valid one modulo the range of a narrower integer, in bytes or in bits
			for _, big := range wrapSizes(r, 0, 4, 8, 10, 12, 16, 24, 32) {
				for _, k := range []int{16, 24, 32} {
					e(C{Fn: fn, Key: pattern(k, 1), Ksn: pattern(big, 1)})
					e(C{Fn: fn, Key: pattern(big, 1), Ksn: pattern(12, 1)})
					e(C{Fn: fn, Key: pattern(big, 1), Ksn: pattern(10, 1)})
				}
			}
		}
		for _, fn := range []string{"pkg.NextAes", "pkg.NextDes", "pkg.ValidAes", "pkg.TcAes", "pkg.TcDes"} {
			for n := -1; n <= 300; n++ {
				b := lenOf(n, 3)
				e(C{Fn: fn, Ksn: b})
				if n > 0 {
					e(C{Fn: fn, Ksn: rep(0, n)})
					e(C{Fn: fn, Ksn: rep(0xFF, n)})
					if n <= 16 {
						dev1(b, func(x []byte) bool { return e(C{Fn: fn, Ksn: x}) })
						dev1(rep(0xFF, n), func(x []byte) bool { return e(C{Fn: fn, Ksn: x}) })
					}
				}
			}
			dev2(pattern(12, 1), someVals, func(x []byte) bool { return e(C{Fn: fn, Ksn: x}) })
			dev2(pattern(10, 1), someVals, func(x []byte) bool { return e(C{Fn: fn, Ksn: x}) })
		}
		for _, big := range wrapSizes(r, 0, 8, 10, 12, 16, 24, 32) {
			k := pattern(big, 1)
			for _, n := range sizes3 {
				a := aesBDK3[:n]
				e(C{Fn: "aes.Enc", Key: k, Ksn: aesKSN, Text: "1234", Fmt: aesTypes[n], Act: "request"})
				e(C{Fn: "aes.Dec", Key: k, Ksn: aesKSN, Data: pattern(16, 1), Fmt: aesTypes[n], Act: "request"})
				e(C{Fn: "aes.Cmac", Key: k, Ksn: aesKSN, Text: "1234", Fmt: aesTypes[n], Act: "request"})
				e(C{Fn: "aes.Hmac", Key: k, Ksn: aesKSN, Text: "1234", Fmt: hmacTypes[n], Act: "request"})
				e(C{Fn: "aes.EncPin", Key: k, Ksn: aesKSN, Text: "1234", Pan: "4012345678909", Fmt: aesTypes[n]})
				e(C{Fn: "aes.DecPin", Key: k, Ksn: aesKSN, Data: pattern(16, 1), Pan: "4012345678909", Fmt: aesTypes[n]})
				e(C{Fn: "aes.DecPin", Key: a, Ksn: aesKSN, Data: k, Pan: "4012345678909", Fmt: aesTypes[n]})
				e(C{Fn: "aes.Enc", Key: a, Ksn: k, Text: "1234", Fmt: aesTypes[n], Act: "request"})
				e(C{Fn: "aes.Dec", Key: a, Ksn: k, Data: pattern(16, 1), Fmt: aesTypes[n], Act: "request"})
				e(C{Fn: "aes.Cmac", Key: a, Ksn: k, Text: "1234", Fmt: aesTypes[n], Act: "request"})
				e(C{Fn: "aes.Hmac", Key: a, Ksn: k, Text: "1234", Fmt: hmacTypes[n], Act: "request"})
				e(C{Fn: "aes.Enc", Key: a, Ksn: aesKSN, IV: k, Text: "1234", Fmt: aesTypes[n], Act: "request"})
				e(C{Fn: "aes.Dec", Key: a, Ksn: aesKSN, IV: k, Data: pattern(16, 1), Fmt: aesTypes[n], Act: "request"})
				e(C{Fn: "aes.EncPin", Key: a, Ksn: aesKSN, Text: strings.Repeat("1", big), Pan: "4012345678909", Fmt: aesTypes[n]})
				e(C{Fn: "aes.EncPin", Key: a, Ksn: aesKSN, Text: "1234", Pan: strings.Repeat("1", big), Fmt: aesTypes[n]})
			}
			e(C{Fn: "des.Enc", Key: k, Text: "1234", Act: "request"})
			e(C{Fn: "des.Dec", Key: k, Data: pattern(16, 1), Act: "request"})
			e(C{Fn: "des.Mac", Key: k, Text: "1234", Act: "request"})
			e(C{Fn: "des.Enc", Key: deskey, IV: k, Text: "1234", Act: "request"})
			e(C{Fn: "des.Dec", Key: deskey, IV: k, Data: pattern(16, 1), Act: "request"})
			for _, f := range ref.FormatNames {
				e(C{Fn: "des.EncPin", Key: k, Text: "1234", Pan: "4012345678909", Fmt: f})
				e(C{Fn: "des.EncPin", Key: deskey, Text: strings.Repeat("1", big), Pan: "4012345678909", Fmt: f})
				e(C{Fn: "des.EncPin", Key: deskey, Text: "1234", Pan: strings.Repeat("1", big), Fmt: f})
				e(C{Fn: "des.DecPin", Key: k, Data: pattern(8, 1), Pan: "4012345678909", Fmt: f})
				e(C{Fn: "des.DecPin", Key: deskey, Data: k, Pan: "4012345678909", Fmt: f})
				e(C{Fn: "des.DecPin", Key: deskey, Data: pattern(8, 1), Pan: strings.Repeat("1", big), Fmt: f})
			}
			for _, fn := range []string{"pkg.NextAes", "pkg.NextDes", "pkg.ValidAes", "pkg.TcAes", "pkg.TcDes"} {
				e(C{Fn: fn, Ksn: k})
			}
		}
		// TDES data and MAC
		for _, kl := range deskeyL {
			key := lenOf(kl, 1)
			for tl := 0; tl <= 40; tl++ {
				for il := -1; il <= 20; il++ {
					for _, a := range actions[:pickN(r, len(actions), 4)] {
						if !e(C{Fn: "des.Enc", Key: key, IV: lenOf(il, 1), Text: string(pattern(tl, 1)), Act: a}) ||
							!e(C{Fn: "des.Dec", Key: key, IV: lenOf(il, 1), Data: pattern(tl, 1), Act: a}) {
							return
						}
					}
				}
				for _, a := range actions {
					e(C{Fn: "des.Mac", Key: key, Text: string(pattern(tl, 1)), Act: a})
				}
				e(C{Fn: "des.Dec", Key: key, Data: nil})
			}
			for _, f := range fm {
				for _, s := range oddStrings {
					for _, pan := range oddStrings {
						if (kl < 0 || kl == 16) && !e(C{Fn: "des.EncPin", Key: key, Text: s, Pan: pan, Fmt: f}) {
							return
						}
					}
					e(C{Fn: "des.EncPin", Key: key, Text: s, Pan: "4012345678909", Fmt: f})
				}
				for dl := -1; dl <= 34; dl++ {
					e(C{Fn: "des.DecPin", Key: key, Data: lenOf(dl, 1), Pan: "4012345678909", Fmt: f})
				}
				for _, pan := range oddStrings {
					e(C{Fn: "des.DecPin", Key: key, Data: pattern(8, 5), Pan: pan, Fmt: f})
				}
			}
		}
		// TDES garbage PIN blocks: the first two bytes complete, and every nibble pair of a decimal-looking block
		pk := ref.TdesPinKey(deskey)
		for _, f := range ref.FormatNames {
			for _, pan := range []string{"4012345678909", "0000000000000"} {
				for a := 0; a < 256; a++ {
					for b := 0; b < 256; b++ {
						for _, rest := range []byte{0x55, 0xFF, 0xAB} {
							blk := rep(rest, 8)
							blk[0], blk[1] = byte(a), byte(b)
							if !e(C{Fn: "des.DecPin", Key: deskey, Data: ref.T2E(pk, blk), Pan: pan, Fmt: f}) {
								return
							}
						}
					}
				}
			}
			for _, base := range [][]byte{rep(0x11, 8), rep(0xFF, 8), rep(0xAA, 8), rep(0x0F, 8)} {
				dev1(base, func(x []byte) bool {
					return e(C{Fn: "des.DecPin", Key: deskey, Data: ref.T2E(pk, x), Pan: "4012345678909", Fmt: f})
				})
				dev2(base, someVals, func(x []byte) bool {
					return e(C{Fn: "des.DecPin", Key: deskey, Data: ref.T2E(pk, x), Pan: "0000000000000", Fmt: f})
				})
			}
		}
		// AES
		kls := []int{-1, 0, 8, 15, 16, 17, 23, 24, 25, 31, 32, 33, 48}
		if r.Thorough {
			kls = upto(-1, 50)
		}
		for _, kl := range kls {
			key := lenOf(kl, 1)
			for nl := -1; nl <= 20; nl++ {
				ksn := lenOf(nl, 2)
				for _, ty := range keyTypes {
					for _, a := range actions[:3] {
						for _, tl := range []int{0, 1, 15, 16, 17, 32, 40} {
							for _, il := range []int{-1, 0, 1, 15, 16, 17, 33} {
								if !e(C{Fn: "aes.Enc", Key: key, Ksn: ksn, IV: lenOf(il, 1), Text: string(pattern(tl, 1)), Fmt: ty, Act: a}) ||
									!e(C{Fn: "aes.Dec", Key: key, Ksn: ksn, IV: lenOf(il, 1), Data: pattern(tl, 1), Fmt: ty, Act: a}) {
									return
								}
								if a == "" && !r.Thorough {
									break
								}
							}
							e(C{Fn: "aes.Cmac", Key: key, Ksn: ksn, Text: string(pattern(tl, 1)), Fmt: ty, Act: a})
							e(C{Fn: "aes.Hmac", Key: key, Ksn: ksn, Text: string(pattern(tl, 1)), Fmt: ty, Act: a})
						}
					}
					for _, s := range []string{"", "1", "1234", "123456789012", "1234567890123", "12a4"} {
						for _, pan := range []string{"", "1", "40123456789", "401234567890", "4012345678909", strings.Repeat("4", 19), strings.Repeat("4", 20)} {
							e(C{Fn: "aes.EncPin", Key: key, Ksn: ksn, Text: s, Pan: pan, Fmt: ty})
						}
					}
					for _, dl := range []int{-1, 0, 1, 8, 15, 16, 17, 32} {
						for _, pan := range []string{"", "1", "40123456789", "4012345678909", strings.Repeat("4", 20)} {
							e(C{Fn: "aes.DecPin", Key: key, Ksn: ksn, Data: lenOf(dl, 1), Pan: pan, Fmt: ty})
						}
					}
				}
			}
		}
		for _, n := range sizes3 {
			k := aesBDK3[:n]
			for _, s := range oddStrings {
				for _, pan := range oddStrings {
					e(C{Fn: "aes.EncPin", Key: k, Ksn: aesKSN, Text: s, Pan: pan, Fmt: aesTypes[n]})
				}
				e(C{Fn: "aes.DecPin", Key: k, Ksn: aesKSN, Data: pattern(16, 1), Pan: s, Fmt: aesTypes[n]})
				e(C{Fn: "aes.Cmac", Key: k, Ksn: aesKSN, Text: s, Fmt: s, Act: s})
				e(C{Fn: "aes.Enc", Key: k, Ksn: aesKSN, Text: s, Fmt: s, Act: s})
			}
			wk := ref.AesWork(k, aesKSN, ref.UsePin, false)
			for _, pan := range []string{"4012345678909", "000000000000", strings.Repeat("9", 19)} {
				for a := 0; a < 256; a++ {
					for b := 0; b < 256; b++ {
						blk := rep(0xAA, 16)
						blk[0], blk[1] = byte(a), byte(b)
						if !e(C{Fn: "aes.DecPin", Key: k, Ksn: aesKSN, Data: iso4Wrap(wk, blk, pan), Pan: pan, Fmt: aesTypes[n]}) {
							return
						}
					}
				}
				for _, base := range [][]byte{rep(0x11, 16), rep(0xFF, 16), rep(0xAA, 16), rep(0x4F, 16), rep(0x44, 16)} {
					dev1(base, func(x []byte) bool {
						return e(C{Fn: "aes.DecPin", Key: k, Ksn: aesKSN, Data: iso4Wrap(wk, x, pan), Pan: pan, Fmt: aesTypes[n]})
					})
					for a := 0; a < 256; a++ {
						y := cp(base)
						y[0] = byte(a)
						dev1(y[:2], func(x []byte) bool {
							return e(C{Fn: "aes.DecPin", Key: k, Ksn: aesKSN, Data: iso4Wrap(wk, append(x, base[2:]...), pan), Pan: pan, Fmt: aesTypes[n]})
						})
					}
				}
			}
		}
		// every length of a text or ciphertext, each with the lengths of an initial vector that matter
		for n := 0; n <= 700; n++ {
			for _, a := range []string{"request", "response"} {
				for _, il := range []int{-1, 0, 5, 8, 16, 20} {
					e(C{Fn: "des.Enc", Key: deskey, IV: lenOf(il, 1), Text: string(pattern(n, 1)), Act: a})
					e(C{Fn: "des.Dec", Key: deskey, IV: lenOf(il, 1), Data: pattern(n, 1), Act: a})
					for _, k := range sizes3 {
						e(C{Fn: "aes.Enc", Key: aesBDK3[:k], Ksn: aesKSN, IV: lenOf(il, 1), Text: string(pattern(n, 1)), Fmt: aesTypes[k], Act: a})
						e(C{Fn: "aes.Dec", Key: aesBDK3[:k], Ksn: aesKSN, IV: lenOf(il, 1), Data: pattern(n, 1), Fmt: aesTypes[k], Act: a})
					}
				}
				e(C{Fn: "des.Mac", Key: deskey, Text: string(pattern(n, 1)), Act: a})
				for _, k := range sizes3 {
					e(C{Fn: "aes.Cmac", Key: aesBDK3[:k], Ksn: aesKSN, Text: string(pattern(n, 1)), Fmt: aesTypes[k], Act: a})
					e(C{Fn: "aes.Hmac", Key: aesBDK3[:k], Ksn: aesKSN, Text: string(pattern(n, 1)), Fmt: hmacTypes[k], Act: a})
				}
			}
			for _, f := range ref.FormatNames {
				e(C{Fn: "des.DecPin", Key: deskey, Data: pattern(n, 1), Pan: "4012345678909", Fmt: f})
				e(C{Fn: "des.EncPin", Key: deskey, Text: digits(n, 1), Pan: "4012345678909", Fmt: f})
				e(C{Fn: "des.EncPin", Key: deskey, Text: "1234", Pan: digits(n, 1), Fmt: f})
			}
			for _, k := range sizes3 {
				e(C{Fn: "aes.DecPin", Key: aesBDK3[:k], Ksn: aesKSN, Data: pattern(n, 1), Pan: "4012345678909", Fmt: aesTypes[k]})
				e(C{Fn: "aes.EncPin", Key: aesBDK3[:k], Ksn: aesKSN, Text: digits(n, 1), Pan: "4012345678909", Fmt: aesTypes[k]})
				e(C{Fn: "aes.EncPin", Key: aesBDK3[:k], Ksn: aesKSN, Text: "1234", Pan: digits(n, 1), Fmt: aesTypes[k]})
			}
		}
		// the string interface
		srvCases(r, func(c calls.Call) bool { return e(c) })
		litParams(r, e)
	})
}

func hexs(b []byte) string { return hex.EncodeToString(b) }

// srvBase is one well-formed parameter set per operation, algorithm, key type and MAC type.
func srvBase() (out []calls.Call) {
	for _, op := range []string{"srv.IK", "srv.TK", "srv.EncPin", "srv.DecPin", "srv.Mac", "srv.Enc", "srv.Dec"} {
		for _, alg := range []string{"des", "aes"} {
			for _, n := range sizes3 {
				if alg == "des" && n != 16 {
					continue
				}
				p := server.UnifiedParams{Algorithm: alg, Action: "request"}
				key, ksn := pattern(n, 21), pattern(12, 22)
				if alg == "des" {
					key, ksn = pattern(16, 21), pattern(10, 22)
				} else {
					p.AlgorithmKey = aesTypes[n]
				}
				wk := func() []byte { return ref.AesWork(key, ksn, ref.UsePin, false) }
				kinds := []string{""}
				switch op {
				case "srv.IK":
					p.BKD, p.KSN = hexs(key), hexs(ksn)
				case "srv.TK":
					p.IK, p.KSN = hexs(key), hexs(ksn)
				case "srv.EncPin":
					p.TK, p.PIN, p.PAN, p.Format = hexs(key), "12345", "4012345678909123", "ISO-0"
				case "srv.DecPin":
					p.TK, p.PAN, p.Format = hexs(key), "4012345678909123", "ISO-3"
					if alg == "des" {
						p.PIN = hexs(ref.T2E(ref.TdesPinKey(key), ref.MakeBlock("ISO-3", "12345", p.PAN, 2)))
					} else {
						p.PIN = hexs(ref.Iso4Enc(wk(), "12345", p.PAN, pattern(8, 1)))
					}
				case "srv.Mac":
					p.TK, p.Plaintext = hexs(key), "4012345678909D987"
					if alg == "aes" {
						kinds = []string{"cmac", "hmac"}
					}
				case "srv.Enc":
					p.TK, p.Plaintext, p.IV = hexs(key), "4012345678909D987", hexs(pattern(8, 1))
				case "srv.Dec":
					p.TK, p.Ciphertext, p.IV = hexs(key), hexs(pattern(32, 7)), hexs(pattern(8, 1))
				}
				if alg == "aes" {
					p.KSN = hexs(ksn)
				}
				for _, k := range kinds {
					q := p
					q.MacType = k
					if k == "hmac" {
						q.AlgorithmKey = hmacTypes[n]
					}
					for _, a := range []string{"request", "response"} {
						z := q
						z.Action = a
						out = append(out, C{Fn: op, P: &z})
						if op != "srv.Mac" && op != "srv.Enc" && op != "srv.Dec" {
							break
						}
					}
				}
			}
		}
	}
	return
}

// fields gives access to each parameter.
func fields(p *server.UnifiedParams) map[string]*string {
	return map[string]*string{"Algorithm": &p.Algorithm, "AlgorithmKey": &p.AlgorithmKey, "BKD": &p.BKD, "KSN": &p.KSN, "IK": &p.IK, "TK": &p.TK, "PIN": &p.PIN,
		"PAN": &p.PAN, "Format": &p.Format, "MacType": &p.MacType, "Plaintext": &p.Plaintext, "Ciphertext": &p.Ciphertext, "Action": &p.Action, "IV": &p.IV}
}

var fieldNames = []string{"Algorithm", "AlgorithmKey", "BKD", "KSN", "IK", "TK", "PIN", "PAN", "Format", "MacType", "Plaintext", "Ciphertext", "Action", "IV"}

var hexName = map[string]bool{"KSN": true, "TK": true, "IK": true, "BKD": true, "IV": true, "Ciphertext": true, "PIN": true}

// hexWrites are the other ways people write the hexadecimal text v, which the interface does not define: separators between
// all pairs and in groups, one inserted character at every place, prefixes, suffixes, brackets, other digits and other codings.
func hexWrites(v string) (o []string) {
	join := func(n int, sep string) string {
		var p []string
		for i := 0; i < len(v); i += n {
			p = append(p, v[i:min(i+n, len(v))])
		}
		return strings.Join(p, sep)
	}
	for _, sep := range []string{":", " ", "-", "_", ".", ",", "\n", "\r\n", "\t", "\x00", "\\x", " 0x", ", 0x", "%", "\u200b", "\u00a0", "=\n"} {
		for _, n := range []int{1, 2, 4, 8, 16} {
			if w := join(n, sep); w != v {
				o = append(o, w, strings.ToUpper(w), sep+w, w+sep)
			}
		}
		for i := 0; i <= len(v); i++ {
			o = append(o, v[:i]+sep+v[i:])
			if i < len(v) {
				o = append(o, v[:i]+sep+v[i+1:])
			}
			if i+2 <= len(v) {
				o = append(o, v[:i]+sep+v[i+2:])
			}
		}
	}
	for _, pre := range []string{"0x", "0X", "x", "X", "\\x", "#", "hex:", "0h", "\ufeff", "\"", "'", "(", "{", "[", "<", "h'", "X'", "$", "&H", "\x00", "+", "-", "0", "00"} {
		o = append(o, pre+v, pre+strings.ToUpper(v))
	}
	for _, suf := range []string{"h", "H", "\"", "'", ")", "}", "]", ">", "=", "==", "\x00", "\n", "\r\n", "\t", ";", "u", "L", "g", "."} {
		o = append(o, v+suf, strings.ToUpper(v)+suf)
	}
	for _, q := range [][2]string{{"\"", "\""}, {"'", "'"}, {"(", ")"}, {"{", "}"}, {"[", "]"}, {"<", ">"}, {"X'", "'"}, {" ", " "}, {"0x", "h"}} {
		o = append(o, q[0]+v+q[1])
	}
	// digits that are not ASCII: one and all of them
	wide := func(c byte) string {
		switch {
		case c >= '0' && c <= '9':
			return string(rune(0xFF10 + int(c-'0')))
		case c >= 'a' && c <= 'f':
			return string(rune(0xFF41 + int(c-'a')))
		}
		return string(rune(c))
	}
	all := ""
	for i := range len(v) {
		all += wide(v[i])
		o = append(o, v[:i]+wide(v[i])+v[i+1:])
	}
	o = append(o, all)
	if b, err := hex.DecodeString(v); err == nil {
		o = append(o, base64.StdEncoding.EncodeToString(b), base64.URLEncoding.EncodeToString(b), base64.RawStdEncoding.EncodeToString(b), string(b), hexs([]byte(v)))
	}
	// letters of every case mixture at one place and alternating
	alt := []byte(v)
	for i := range alt {
		if i%2 == 0 {
			alt[i] = strings.ToUpper(v[i : i+1])[0]
		}
		o = append(o, v[:i]+strings.ToUpper(v[i:i+1])+v[i+1:])
	}
	return append(o, string(alt))
}

// variants of one string value
func variants(r *core.Run, name, v string) []string {
	o := []string{"", "0", "00", "g", "zz", "0g", " ", "\x00", "xyz", "0x00", strings.ToUpper(v), strings.ToLower(v), v + "0", v + "00", v + "g", v + "zz", " " + v, v + " ", "0x" + v, v + "\n", v + v,
		"é", "\xff", "1234", "des", "aes", "AES", "cmac", "hmac", "request", "response", "ISO-1", "visa1", "AES128", "aes128", "HMAC128", "AES256"}
	for i := 0; i <= len(v); i++ {
		o = append(o, v[:i])
		if i < len(v) {
			o = append(o, v[i:])
			for _, c := range []string{"g", " ", "G", "-", "\x00", "/", ":", "@", "`", "é", "f", "A", "0"} {
				o = append(o, v[:i]+c+v[i+1:])
			}
		}
	}
	if name == "KSN" || name == "TK" || name == "IK" || name == "BKD" || name == "IV" || name == "Ciphertext" || name == "PIN" {
		for n := 0; n <= 40; n++ {
			o = append(o, hexs(pattern(n, 5)), strings.ToUpper(hexs(pattern(n, 6))))
		}
	}
	if hexName[name] {
		o = append(o, hexWrites(v)...)
	}
	if name == "Algorithm" {
		o = append(o, "des", "aes", "DES", "AES", "3des", "tdes", "", "des ", "aes128")
	}
	if name == "MacType" {
		o = append(o, "cmac", "hmac", "CMAC", "HMAC", "mac", "", "cmac ", "hmac-sha256")
	}
	if name == "AlgorithmKey" {
		o = append(o, keyTypes...)
	}
	if name == "Action" {
		o = append(o, actions...)
	}
	if name == "Format" {
		for _, f := range ref.FormatNames {
			o = append(o, mixed(f)...)
		}
	}
	return o
}

// srvCases: every operation, every parameter replaced by every variant; all pairs of parameters by short variants.
func srvCases(r *core.Run, e func(calls.Call) bool) {
	short := []string{"", "0", "zz", "00", "0g", "ff", "des", "aes", "hmac", "response", "1234"}
	for _, b := range srvBase() {
		if !e(b) {
			return
		}
		vb := C{Fn: "srv.Valid", P: b.P}
		e(vb)
		for i, n := range fieldNames {
			for _, v := range variants(r, n, *fields(b.P)[n]) {
				q := *b.P
				*fields(&q)[n] = v
				if !e(C{Fn: b.Fn, P: &q}) {
					return
				}
				if n == "Algorithm" {
					q := q
					e(C{Fn: "srv.Valid", P: &q})
				}
			}
			for _, m := range fieldNames[i+1:] {
				for _, v := range short {
					for _, w := range short {
						q := *b.P
						*fields(&q)[n], *fields(&q)[m] = v, w
						if !e(C{Fn: b.Fn, P: &q}) {
							return
						}
					}
				}
			}
		}
		// all hex parameters in upper case at once
		q := *b.P
		for _, n := range []string{"BKD", "KSN", "IK", "TK", "IV", "Ciphertext"} {
			*fields(&q)[n] = strings.ToUpper(*fields(&q)[n])
		}
		e(C{Fn: b.Fn, P: &q})
		// large texts
		if b.Fn == "srv.Enc" || b.Fn == "srv.Dec" || b.Fn == "srv.Mac" {
			for _, l := range bigLens {
				q := *b.P
				q.Plaintext, q.Ciphertext = string(pattern(l, 3)), hexs(pattern(l, 4))
				if b.Fn != "srv.Dec" {
					q.Ciphertext = ""
				}
				e(C{Fn: b.Fn, P: &q})
				q.Ciphertext = strings.ToUpper(q.Ciphertext)
				e(C{Fn: b.Fn, P: &q})
				for _, bad := range []string{"g", "0g", "0"} {
					q.Ciphertext = hexs(pattern(l, 4)) + bad
					e(C{Fn: b.Fn, P: &q})
				}
			}
		}
		// texts that look like something else
		if b.Fn == "srv.Enc" || b.Fn == "srv.Mac" {
			marked(4, func(t string) bool {
				q := *b.P
				q.Plaintext = t
				return e(C{Fn: b.Fn, P: &q})
			})
		}
		if b.Fn == "srv.EncPin" || b.Fn == "srv.DecPin" {
			for _, m := range textMarks() {
				for _, i := range []int{0, 4, 6, 16} {
					q := *b.P
					q.PAN = q.PAN[:i] + m + q.PAN[i:]
					e(C{Fn: b.Fn, P: &q})
					q = *b.P
					q.PIN = q.PIN[:min(i, len(q.PIN))] + m + q.PIN[min(i, len(q.PIN)):]
					e(C{Fn: b.Fn, P: &q})
				}
			}
		}
		// longer texts and IV sizes
		for l := 0; l <= 70; l++ {
			q := *b.P
			q.Plaintext = string(pattern(l, 3))
			e(C{Fn: b.Fn, P: &q})
			for _, iv := range ivs(16)[:40] {
				z := *b.P
				z.Plaintext = string(pattern(l, 3))
				z.Ciphertext = hexs(pattern(l, 4))
				z.IV = hexs(iv)
				if b.Fn == "srv.Enc" || b.Fn == "srv.Dec" {
					e(C{Fn: b.Fn, P: &z})
				}
			}
		}
		if r.Thorough {
			for i, n := range fieldNames {
				for _, m := range fieldNames[i+1:] {
					for _, v := range variants(r, n, *fields(b.P)[n]) {
						for _, w := range variants(r, m, *fields(b.P)[m]) {
							if len(v) > 70 || len(w) > 70 {
								continue
							}
							q := *b.P
							*fields(&q)[n], *fields(&q)[m] = v, w
							if !e(C{Fn: b.Fn, P: &q}) {
								return
							}
						}
					}
				}
			}
		}
	}
}

func c19(r *core.Run) {
	runCalls(r, func(e emit) {
		srvCases(r, e)
		litParams(r, e)
		// hex codec: all byte strings of length up to 2, all lengths
		for a := 0; a < 256; a++ {
			e(C{Fn: "pkg.HexEnc", Data: []byte{byte(a)}})
			e(C{Fn: "pkg.HexDec", Text: string([]byte{byte(a)})})
			for b := 0; b < 256; b++ {
				e(C{Fn: "pkg.HexEnc", Data: []byte{byte(a), byte(b)}})
				e(C{Fn: "pkg.HexDec", Text: string([]byte{byte(a), byte(b)})})
				e(C{Fn: "pkg.HexDec", Text: "0" + string([]byte{byte(a), byte(b)}) + "1"})
				e(C{Fn: "pkg.HexDec", Text: string([]byte{'7', byte(a), byte(b)})})
			}
		}
		for n := 0; n <= 600; n++ {
			b := pattern(n, 5)
			e(C{Fn: "pkg.HexEnc", Data: b})
			e(C{Fn: "pkg.HexDec", Text: hexs(b)})
			e(C{Fn: "pkg.HexDec", Text: strings.ToUpper(hexs(b))})
			e(C{Fn: "pkg.HexDec", Text: hexs(b) + "a"})
			if n > 0 && n <= 33 {
				for _, x := range hexWrites(hexs(b)) {
					e(C{Fn: "pkg.HexDec", Text: x})
				}
			}
			if n <= 17 { // one byte of any value inserted anywhere
				h := hexs(b)
				for i := 0; i <= len(h); i++ {
					for v := 0; v < 256; v++ {
						e(C{Fn: "pkg.HexDec", Text: h[:i] + string([]byte{byte(v)}) + h[i:]})
					}
				}
			}
			if n <= 40 {
				dev1([]byte(hexs(b)), func(x []byte) bool { return e(C{Fn: "pkg.HexDec", Text: string(x)}) })
				dev1(b, func(x []byte) bool { return e(C{Fn: "pkg.HexEnc", Data: x}) })
			}
		}
		// byte strings of every length that begin, end, or wholly consist of the same byte, and texts with one wrong character
		for n := 1; n <= pickN(r, 1100, 300); n++ {
			for _, v := range []byte{0, 1, 0x0A, 0x0D, 0x20, 0x30, 0x78, 0x7F, 0x80, 0x0F, 0xF0, 0xFE, 0xFF} {
				for _, k := range []int{1, 2, 3, 4, 8, n / 2, n} {
					if k == 0 || k > n {
						continue
					}
					x, y := pattern(n, 5), pattern(n, 5)
					for i := 0; i < k; i++ {
						x[i], y[n-1-i] = v, v
					}
					for _, b := range [][]byte{x, y} {
						e(C{Fn: "pkg.HexEnc", Data: b})
						e(C{Fn: "pkg.HexDec", Text: hexs(b)})
						e(C{Fn: "pkg.HexDec", Text: strings.ToUpper(hexs(b))})
					}
				}
			}
			h := []byte(hexs(pattern(n, 5)))
			for i := range h {
				for _, v := range []byte{0, ' ', '\n', '-', ':', 'g', 'G', 'x', '/', '@', '`', 0xC3} {
					was := h[i]
					h[i] = v
					ok := e(C{Fn: "pkg.HexDec", Text: string(h)})
					h[i] = was
					if !ok {
						return
					}
				}
			}
		}
		for _, n := range bigLens {
			b := pattern(n, 5)
			e(C{Fn: "pkg.HexEnc", Data: b})
			e(C{Fn: "pkg.HexDec", Text: hexs(b)})
		}
		if r.Thorough {
			for v := 0; v < 1<<24; v++ {
				if !e(C{Fn: "pkg.HexDec", Text: string([]byte{byte(v), byte(v >> 8), byte(v >> 16), '1'})}) {
					return
				}
			}
		}
	})
}
