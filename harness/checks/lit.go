package checks

import (
	"strings"

	"verif.local/h/calls"
	"verif.local/h/core"
	"verif.local/h/ref"
)

const litRule = "constants_of_the_code counts, per operation, the calls of which one argument is a constant of the code under test, its neighbour or made of one"

// litBases are well-formed calls of an operation.
func litBases(fn string) (o []calls.Call) {
	alg, op, _ := strings.Cut(fn, ".")
	switch {
	case alg == "pkg" || fn == "des.IK" || fn == "des.TK":
		ksn := stdKSN
		if strings.HasSuffix(op, "Aes") {
			ksn = aesKSN
		}
		return []calls.Call{{Fn: fn, Key: stdBDK, Ksn: ksn}}
	case alg == "des":
		for _, a := range []string{"request", "response"} {
			switch op {
			case "EncPin", "DecPin":
				for _, f := range ref.FormatNames {
					c := calls.Call{Fn: fn, Key: stdBDK, Text: digits(ref.Formats[f].Min, 1), Pan: "4012345678909", Fmt: f}
					if op == "DecPin" {
						c.Data, c.Text = ref.T2E(ref.TdesPinKey(stdBDK), ref.MakeBlock(f, c.Text, c.Pan, 3)), ""
					}
					o = append(o, c)
				}
				return
			case "Mac":
				o = append(o, calls.Call{Fn: fn, Key: stdBDK, Text: "4012345678909D987", Act: a})
			case "Enc":
				o = append(o, calls.Call{Fn: fn, Key: stdBDK, Text: "some data 1234567", IV: pattern(8, 2), Act: a}, calls.Call{Fn: fn, Key: stdBDK, Text: "some data 123456", Act: a})
			case "Dec":
				o = append(o, calls.Call{Fn: fn, Key: stdBDK, Data: pattern(24, 3), IV: pattern(8, 2), Act: a})
			}
		}
	case alg == "aes":
		for _, n := range sizes3 {
			for _, a := range []string{"request", "response"} {
				c := calls.Call{Fn: fn, Key: aesBDK3[:n], Ksn: aesKSN, Act: a, Fmt: aesTypes[n]}
				switch op {
				case "IK", "TK":
					c.Act, c.Fmt = "", ""
				case "EncPin":
					c.Act, c.Text, c.Pan = "", "1234", "4012345678909"
				case "DecPin":
					c.Act, c.Pan = "", "4012345678909"
					c.Data = ref.Iso4Enc(ref.AesWork(c.Key, c.Ksn, ref.UsePin, false), "1234", c.Pan, pattern(8, 1))
				case "Cmac":
					c.Text = "4012345678909D987"
				case "Hmac":
					c.Text, c.Fmt = "4012345678909D987", hmacTypes[n]
				case "Enc":
					c.Text, c.IV = "some data 123456789", pattern(16, 2)
				case "Dec":
					c.Data, c.IV = pattern(48, 3), pattern(16, 2)
				}
				o = append(o, c)
				if c.Act == "" {
					break
				}
			}
		}
	case alg == "enc":
		sz := map[string][]int{"AES": sizes3, "DES": {8}, "3DES": {16, 24}}[op]
		for _, n := range sz {
			b := 8
			if op == "AES" {
				b = 16
			}
			for _, a := range []string{"E", "D"} {
				o = append(o, calls.Call{Fn: fn, Key: pattern(n, 1), Data: pattern(b, 2), Act: a})
			}
		}
	}
	return
}

// litTexts are texts made of the constants: each alone, beside other text, doubled, and around block boundaries.
func litTexts() (o []string) {
	for _, s := range core.Lit().Strings {
		o = append(o, s, s+"4012345678909D987", "4012345678909D987"+s, "40123456"+s+"78909D98", s+s)
		for _, b := range []int{8, 16, 32} {
			if len(s) < b {
				o = append(o, s+"4012345678909D98765432101234567890"[:b-len(s)], "4012345678909D98765432101234567890"[:b-len(s)]+s, padTo(s, b))
			}
		}
	}
	for _, b := range []int{1, 8, 16, 19} {
		for _, x := range core.Lit().Bytes(pattern(b, 4)) {
			o = append(o, string(x))
		}
	}
	return
}

// litCalls emits the operations with each argument in turn made of the constants of the code.
func litCalls(r *core.Run, fns ...string) { litRun(r, runCalls, fns) }

// litRobust is litCalls judged for robustness only, for all operations.
func litRobust(r *core.Run) {
	litRun(r, runRobust, []string{"des.IK", "des.TK", "aes.IK", "aes.TK", "pkg.NextDes", "pkg.NextAes", "pkg.ValidAes", "pkg.TcAes", "pkg.TcDes", "des.EncPin", "des.DecPin",
		"des.Mac", "des.Enc", "des.Dec", "aes.EncPin", "aes.DecPin", "aes.Cmac", "aes.Hmac", "aes.Enc", "aes.Dec", "enc.AES", "enc.DES", "enc.3DES"})
}

func litRun(r *core.Run, run func(*core.Run, func(func(calls.Call) bool)), fns []string) {
	r.Set("rule_of_constants", litRule)
	l := core.Lit()
	texts := litTexts()
	run(r, func(em func(calls.Call) bool) {
		n := int64(0)
		e := func(c calls.Call) bool { n++; return em(c) }
		for _, fn := range fns {
			bases := litBases(fn)
			for _, b := range bases {
				with := func(f func(c *calls.Call)) { c := b; f(&c); e(c) }
				if len(b.Key) > 0 && !strings.HasPrefix(fn, "pkg.") {
					for _, k := range l.Bytes(b.Key) {
						with(func(c *calls.Call) { c.Key = k })
					}
				}
				if len(b.Ksn) > 0 {
					for _, s := range l.Bytes(b.Ksn) {
						with(func(c *calls.Call) { c.Ksn = s })
					}
					for _, t := range l.Numbers() { // as the counter
						with(func(c *calls.Call) {
							if len(c.Ksn) == 12 {
								c.Ksn = putTC(c.Ksn, uint32(t))
							} else {
								c.Ksn = ref.TdesSetTC(c.Ksn, uint32(t)&0x1FFFFF)
							}
						})
					}
				}
				if b.Text != "" && !strings.HasSuffix(fn, "Pin") {
					for _, t := range texts {
						with(func(c *calls.Call) { c.Text = t })
					}
					for _, z := range l.Sizes(20000) {
						with(func(c *calls.Call) { c.Text = string(pattern(z, 3)) })
					}
					if b.IV != nil {
						for _, t := range texts {
							with(func(c *calls.Call) { c.IV = []byte(t) })
						}
						for _, z := range l.Sizes(20000) {
							with(func(c *calls.Call) { c.IV = pattern(z, 3) })
						}
					}
				}
				if len(b.Data) > 0 {
					for _, x := range l.Bytes(b.Data) {
						with(func(c *calls.Call) { c.Data = x })
					}
					for _, z := range l.Sizes(20000) {
						with(func(c *calls.Call) { c.Data = pattern(z, 3) })
					}
					if b.IV != nil {
						for _, x := range l.Bytes(b.IV) {
							with(func(c *calls.Call) { c.IV = x })
						}
					}
				}
				if b.Fmt != "" {
					for _, s := range l.Strings {
						with(func(c *calls.Call) { c.Fmt = s })
						with(func(c *calls.Call) { c.Fmt = c.Fmt + s })
						with(func(c *calls.Call) { c.Fmt = s + c.Fmt })
					}
				}
				if b.Act == "request" || b.Act == "response" {
					for _, s := range l.Strings {
						with(func(c *calls.Call) { c.Act = s })
						with(func(c *calls.Call) { c.Act = c.Act + s })
						with(func(c *calls.Call) { c.Act = s + c.Act })
					}
				}
				if b.Pan != "" {
					for _, s := range l.Strings {
						for _, t := range []string{s, s + b.Pan, b.Pan + s} {
							with(func(c *calls.Call) { c.Pan = t })
							if b.Text != "" {
								with(func(c *calls.Call) { c.Text = t })
								with(func(c *calls.Call) { c.Text = c.Text + s })
							}
						}
					}
				}
			}
		}
		r.Count("constants_of_the_code", n)
	})
}

// litPins emits PINs and account numbers that the constants suggest.
func litPins(f func(pin, pan string)) {
	l := core.Lit()
	for n := 4; n <= 14; n++ {
		for _, p := range l.Digits(n, "65873210987654321") {
			f(p, "4012345678909")
		}
	}
	for n := 12; n <= 22; n++ {
		for _, p := range l.Digits(n, "4012345678909123456789") {
			f("", p)
		}
	}
}

// litParams emits the string interface with each parameter made of the constants of the code.
func litParams(r *core.Run, e func(calls.Call) bool) {
	r.Set("rule_of_constants", litRule)
	l := core.Lit()
	texts := litTexts()
	n := int64(0)
	for _, b := range srvBase() {
		for _, f := range fieldNames {
			v := *fields(b.P)[f]
			put := func(s string) {
				q := *b.P
				*fields(&q)[f] = s
				n++
				e(C{Fn: b.Fn, P: &q})
				if f == "Algorithm" {
					z := q
					e(C{Fn: "srv.Valid", P: &z})
				}
			}
			for _, s := range l.Strings {
				put(s)
				put(s + v)
				put(v + s)
				put(hexs([]byte(s)))
			}
			if v == "" {
				continue
			}
			switch {
			case f == "Plaintext":
				for _, t := range texts {
					put(t)
				}
				for _, z := range l.Sizes(20000) {
					put(string(pattern(z, 3)))
				}
			case hexName[f] && !(f == "PIN" && b.Fn == "srv.EncPin"):
				for _, x := range l.Bytes(hexb(v)) {
					put(hexs(x))
				}
				for _, z := range l.Sizes(9000) {
					put(hexs(pattern(z, 3)))
				}
			case f == "PIN" || f == "PAN":
				for z := 4; z <= 19; z++ {
					for _, d := range l.Digits(z, "4012345678909123456789") {
						put(d)
					}
				}
			}
		}
	}
	r.Count("constants_of_the_code", n)
}
