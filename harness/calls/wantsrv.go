package calls

import (
	"encoding/hex"
)

// The string interface: decode every hex parameter the operation uses (an undecodable one is an error), select the
// library operation, and encode. Parameters an operation does not use are unconstrained: if one of those is not hex
// the answer is unspecified.
func wantSrv(c *Call) Want {
	p := c.P
	bad := false
	dec := func(s string) []byte {
		if s == "" {
			return nil
		}
		b, err := hex.DecodeString(s)
		if err != nil {
			bad = true
			return nil
		}
		return b
	}
	isAes := p.Algorithm == "aes"
	var lc Call
	used := map[string]bool{}
	use := func(n, v string) []byte { used[n] = true; return dec(v) }
	alg := "des."
	if isAes {
		alg = "aes."
	}
	switch c.Fn {
	case "srv.IK":
		lc = Call{Fn: alg + "IK", Key: use("BKD", p.BKD), Ksn: use("KSN", p.KSN)}
	case "srv.TK":
		lc = Call{Fn: alg + "TK", Key: use("IK", p.IK), Ksn: use("KSN", p.KSN)}
	case "srv.EncPin":
		lc = Call{Fn: alg + "EncPin", Key: use("TK", p.TK), Text: p.PIN, Pan: p.PAN, Fmt: p.Format}
		if isAes {
			lc.Ksn, lc.Fmt = use("KSN", p.KSN), p.AlgorithmKey
		}
	case "srv.DecPin":
		lc = Call{Fn: alg + "DecPin", Key: use("TK", p.TK), Data: dec(p.PIN), Pan: p.PAN, Fmt: p.Format}
		if isAes {
			lc.Ksn, lc.Fmt = use("KSN", p.KSN), p.AlgorithmKey
		}
	case "srv.Mac":
		lc = Call{Fn: "des.Mac", Key: use("TK", p.TK), Text: p.Plaintext, Act: p.Action}
		if isAes {
			lc.Ksn, lc.Fmt = use("KSN", p.KSN), p.AlgorithmKey
			switch p.MacType {
			case "cmac":
				lc.Fn = "aes.Cmac"
			case "hmac":
				lc.Fn = "aes.Hmac"
			default:
				return werr()
			}
		}
	case "srv.Enc":
		lc = Call{Fn: alg + "Enc", Key: use("TK", p.TK), IV: use("IV", p.IV), Text: p.Plaintext, Act: p.Action}
		if isAes {
			lc.Ksn, lc.Fmt = use("KSN", p.KSN), p.AlgorithmKey
		}
	case "srv.Dec":
		lc = Call{Fn: alg + "Dec", Key: use("TK", p.TK), Data: use("CT", p.Ciphertext), IV: use("IV", p.IV), Act: p.Action}
		if isAes {
			lc.Ksn, lc.Fmt = use("KSN", p.KSN), p.AlgorithmKey
		}
	}
	if bad {
		return werr()
	}
	unused := false
	for n, v := range map[string]string{"BKD": p.BKD, "KSN": p.KSN, "IK": p.IK, "TK": p.TK, "CT": p.Ciphertext, "IV": p.IV} {
		if !used[n] && !allHex(v) {
			unused = true
		}
	}
	if unused {
		return wany()
	}
	if p.Algorithm != "aes" && p.Algorithm != "des" {
		return wany() // rejected by ValidateAlgorithm before any operation
	}
	w := WantOf(&lc)
	switch w.Kind {
	case "value":
		if w.isStr {
			return w
		}
		return ws(hex.EncodeToString(w.B))
	case "pred":
		return wp(func(r Result) error {
			b, err := hex.DecodeString(r.S)
			if err != nil {
				return err
			}
			return w.Pred(Result{B: b, OK: true})
		})
	}
	return w
}
