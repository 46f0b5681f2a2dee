package calls

import (
	"bytes"
	"encoding/hex"
	"fmt"
	"strings"

	"verif.local/h/ref"
)

// Want is what the specification says about a call.
type Want struct {
	Kind  string // "value", "error", "any" (only: no panic, no hang), "pred"
	B     []byte
	S     string
	N     uint64
	Pred  func(Result) error
	isStr bool
}

func wb(b []byte) Want             { return Want{Kind: "value", B: b} }
func ws(s string) Want             { return Want{Kind: "value", S: s, isStr: true} }
func wn(n uint64) Want             { return Want{Kind: "value", N: n} }
func werr() Want                   { return Want{Kind: "error"} }
func wany() Want                   { return Want{Kind: "any"} }
func wp(f func(Result) error) Want { return Want{Kind: "pred", Pred: f} }

func (w Want) String() string {
	switch w.Kind {
	case "value":
		if w.isStr {
			return fmt.Sprintf("%q", w.S)
		}
		if w.B == nil {
			return fmt.Sprint(w.N)
		}
		return hx(w.B)
	case "error":
		return "an error"
	case "pred":
		return "an output that decodes to the input"
	}
	return "any answer without panic"
}

// Check compares a result with the specification.
func (w Want) Check(r Result) error {
	if w.Kind == "any" {
		return nil // C16 is the property about these
	}
	if r.Panic != "" {
		return fmt.Errorf("panicked: %s", r.Panic)
	}
	switch w.Kind {
	case "error":
		if r.OK {
			return fmt.Errorf("succeeded with %s, want an error", r)
		}
		if len(r.B) != 0 || r.S != "" {
			return fmt.Errorf("failed (%s) but also returned output %s/%q", r.Err, hx(r.B), r.S)
		}
		if r.Err == "" {
			return fmt.Errorf("error without a message")
		}
		return nil
	case "pred":
		if !r.OK {
			return fmt.Errorf("failed: %s", r.Err)
		}
		return w.Pred(r)
	}
	if !r.OK {
		return fmt.Errorf("failed: %s; want %s", r.Err, w)
	}
	if !bytes.Equal(r.B, w.B) || r.S != w.S || r.N != w.N {
		return fmt.Errorf("returned %s, want %s", r, w)
	}
	return nil
}

// Robust is the part of the specification C16 is about: no panic, and an error without output for undefined sizes.
func (w Want) Robust(r Result) error {
	if r.Panic != "" {
		return fmt.Errorf("panicked: %s", r.Panic)
	}
	if w.Kind == "error" {
		return w.Check(r)
	}
	if !r.OK && (len(r.B) != 0 || r.S != "") {
		return fmt.Errorf("failed (%s) but also returned output %s/%q", r.Err, hx(r.B), r.S)
	}
	return nil
}

func resp(act string) bool { return act == "response" }

func aesSize(t string) int {
	switch t {
	case "AES128":
		return 16
	case "AES192":
		return 24
	case "AES256":
		return 32
	}
	return 0
}
func hmacSize(t string) int {
	switch t {
	case "HMAC128":
		return 16
	case "HMAC192":
		return 24
	case "HMAC256":
		return 32
	}
	return 0
}

func aesLen(n int) bool { return n == 16 || n == 24 || n == 32 }
func allHex(s string) bool {
	if len(s)%2 != 0 {
		return false
	}
	_, err := hex.DecodeString(s)
	return err == nil
}

// WantOf is the oracle.
func WantOf(c *Call) Want {
	switch c.Fn {
	case "des.IK":
		if len(c.Key) != 16 || len(c.Ksn) == 0 || len(c.Ksn) > 10 {
			return werr()
		}
		return wb(ref.TdesIK(c.Key, c.Ksn))
	case "des.TK":
		if len(c.Key) != 16 || len(c.Ksn) == 0 || len(c.Ksn) > 10 {
			return werr()
		}
		return wb(ref.TdesTK(c.Key, c.Ksn))
	case "des.EncPin":
		return wantDesEncPin(c)
	case "des.DecPin":
		return wantDesDecPin(c)
	case "des.Mac":
		if len(c.Key) != 16 {
			return werr()
		}
		return wb(ref.TdesMac(c.Key, []byte(c.Text), resp(c.Act)))
	case "des.Enc":
		if len(c.Key) != 16 {
			return werr()
		}
		return wb(ref.TdesEnc(c.Key, c.IV, []byte(c.Text), resp(c.Act)))
	case "des.Dec":
		if len(c.Key) != 16 {
			return werr()
		}
		if len(c.Data)%8 != 0 {
			return wany()
		}
		return ws(string(ref.TdesDec(c.Key, c.IV, c.Data, resp(c.Act))))
	case "aes.IK":
		if !aesLen(len(c.Key)) || (len(c.Ksn) != 8 && len(c.Ksn) != 12) {
			return werr()
		}
		return wb(ref.AesIK(c.Key, c.Ksn[:8]))
	case "aes.TK":
		if !aesLen(len(c.Key)) || len(c.Ksn) != 12 {
			return werr()
		}
		return wb(ref.AesTK(c.Key, c.Ksn))
	case "aes.EncPin":
		if aesSize(c.Fmt) == 0 || len(c.Key) != aesSize(c.Fmt) || len(c.Ksn) != 12 {
			return werr()
		}
		if !ref.Digits(c.Text) || !ref.Digits(c.Pan) {
			return wany()
		}
		if len(c.Text) < 4 || len(c.Text) > 12 || len(c.Pan) < 12 || len(c.Pan) > 19 {
			return werr()
		}
		k := ref.AesWork(c.Key, c.Ksn, ref.UsePin, false)
		return wp(func(r Result) error { return ref.Iso4Check(k, c.Text, c.Pan, r.B) })
	case "aes.DecPin":
		if aesSize(c.Fmt) == 0 || len(c.Key) != aesSize(c.Fmt) || len(c.Ksn) != 12 {
			return werr()
		}
		if !ref.Digits(c.Pan) {
			return wany()
		}
		if len(c.Data) != 16 || len(c.Pan) < 12 || len(c.Pan) > 19 {
			return werr()
		}
		if p, ok := iso4Pin(c); ok {
			return ws(p)
		}
		return wany()
	case "aes.Cmac":
		if aesSize(c.Fmt) == 0 || len(c.Key) != aesSize(c.Fmt) || len(c.Ksn) != 12 {
			return werr()
		}
		return wb(ref.AesCmac(c.Key, c.Ksn, []byte(c.Text), resp(c.Act)))
	case "aes.Hmac":
		if hmacSize(c.Fmt) == 0 || len(c.Key) != hmacSize(c.Fmt) || len(c.Ksn) != 12 {
			return werr()
		}
		return wb(ref.AesHmac(c.Key, c.Ksn, []byte(c.Text), resp(c.Act)))
	case "aes.Enc":
		if aesSize(c.Fmt) == 0 || len(c.Key) != aesSize(c.Fmt) || len(c.Ksn) != 12 {
			return werr()
		}
		return wb(ref.AesEnc(c.Key, c.Ksn, c.IV, []byte(c.Text), resp(c.Act)))
	case "aes.Dec":
		if aesSize(c.Fmt) == 0 || len(c.Key) != aesSize(c.Fmt) || len(c.Ksn) != 12 {
			return werr()
		}
		if len(c.Data)%16 != 0 {
			return wany()
		}
		return ws(string(ref.AesDec(c.Key, c.Ksn, c.IV, c.Data, resp(c.Act))))
	case "pkg.NextAes":
		if len(c.Ksn) != 12 {
			return werr()
		}
		n, ok := ref.AesNextTC(ref.AesTC(c.Ksn))
		if !ok {
			return werr()
		}
		return wb(ref.AesSetTC(c.Ksn, n))
	case "pkg.NextDes":
		if len(c.Ksn) < 4 || len(c.Ksn) > 10 {
			return werr()
		}
		n, ok := ref.TdesNextTC(ref.TdesTC(c.Ksn))
		if !ok {
			return werr()
		}
		return wb(ref.TdesSetTC(c.Ksn, n))
	case "pkg.ValidAes":
		if len(c.Ksn) != 12 {
			return wany()
		}
		if ref.AesValidTC(ref.AesTC(c.Ksn)) {
			return wn(1)
		}
		return wn(0)
	case "pkg.TcAes":
		if len(c.Ksn) != 12 {
			return wany()
		}
		return wn(uint64(ref.AesTC(c.Ksn)))
	case "pkg.TcDes":
		if len(c.Ksn) < 4 || len(c.Ksn) > 10 {
			return wany()
		}
		return wn(uint64(ref.TdesTC(c.Ksn)))
	case "pkg.HexDec":
		b, err := hex.DecodeString(c.Text)
		if err != nil || len(b) == 0 {
			return wb(nil)
		}
		return wb(b)
	case "pkg.HexEnc":
		return ws(hex.EncodeToString(c.Data))
	case "enc.AES":
		if !aesLen(len(c.Key)) || len(c.Data) != 16 {
			return werr()
		}
		if c.Act == "D" {
			return wb(ref.AesD(c.Key, c.Data))
		}
		return wb(ref.AesE(c.Key, c.Data))
	case "enc.DES":
		if len(c.Key) != 8 || len(c.Data) != 8 {
			return werr()
		}
		if c.Act == "D" {
			return wb(ref.DesD(c.Key, c.Data))
		}
		return wb(ref.DesE(c.Key, c.Data))
	case "enc.3DES":
		if (len(c.Key) != 16 && len(c.Key) != 24) || len(c.Data) != 8 {
			return werr()
		}
		k := c.Key
		if len(k) == 16 {
			k = append(append([]byte{}, k...), k[:8]...)
		}
		if c.Act == "D" {
			return wb(ref.T3D(k, c.Data))
		}
		return wb(ref.T3E(k, c.Data))
	case "srv.Valid":
		if c.P.Algorithm == "des" || c.P.Algorithm == "aes" {
			return ws("")
		}
		return werr()
	}
	if strings.HasPrefix(c.Fn, "srv.") {
		return wantSrv(c)
	}
	panic("harness: no oracle for " + c.Fn)
}

func panOK(sp ref.PinSpec, pan string) bool { return !sp.Pan || len(pan) >= 13 }

func wantDesEncPin(c *Call) Want {
	f := strings.ToUpper(c.Fmt)
	sp, ok := ref.Formats[f]
	if len(c.Key) != 16 || !ok {
		return werr() // ISO-4 is a 16-byte block: refused too
	}
	if !ref.Digits(c.Text) || !ref.Digits(c.Pan) {
		return wany()
	}
	if len(c.Text) < 4 || !panOK(sp, c.Pan) {
		return werr()
	}
	if len(c.Text) > sp.Max {
		if sp.Kind == "iso0" || sp.Kind == "iso3" {
			return werr()
		}
		return wany() // these formats define truncation
	}
	return wp(func(r Result) error {
		if len(r.B) != 8 {
			return fmt.Errorf("ciphertext of %d bytes", len(r.B))
		}
		return ref.CheckBlock(f, c.Text, c.Pan, ref.T2D(ref.TdesPinKey(c.Key), r.B))
	})
}

func wantDesDecPin(c *Call) Want {
	f := strings.ToUpper(c.Fmt)
	sp, ok := ref.Formats[f]
	if len(c.Key) != 16 || !ok {
		return werr()
	}
	if !ref.Digits(c.Pan) {
		return wany()
	}
	if len(c.Data) != 8 || !panOK(sp, c.Pan) {
		return werr()
	}
	blk := ref.T2D(ref.TdesPinKey(c.Key), c.Data)
	if p, ok := ref.BlockPin(f, c.Pan, blk); ok {
		return ws(p)
	}
	return wany()
}

func iso4Pin(c *Call) (string, bool) {
	return ref.Iso4Pin(ref.AesWork(c.Key, c.Ksn, ref.UsePin, false), c.Pan, c.Data)
}
