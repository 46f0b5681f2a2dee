// Package calls gives every public library function a uniform, serialisable form (Call), an interpreter that runs it
// on the real code (Exec) and an oracle (Want) built from package ref. All library checks, replays, call sequences
// and concurrent runs use it.
package calls

import (
	"bytes"
	"encoding/hex"
	"fmt"
	"runtime/debug"
	"strings"
	"unsafe"

	"github.com/moov-io/dukpt/encryption"
	"github.com/moov-io/dukpt/pkg"
	"github.com/moov-io/dukpt/pkg/aes"
	"github.com/moov-io/dukpt/pkg/des"
	"github.com/moov-io/dukpt/pkg/server"
)

// Call is one library call. Unused fields stay zero.
type Call struct {
	Fn   string
	Key  []byte // bdk / initial key / transaction key
	Ksn  []byte
	Data []byte // ciphertext, block
	IV   []byte
	Text string // plaintext, pin, hex string, direction
	Pan  string
	Fmt  string // pin format or key type
	Act  string
	P    *server.UnifiedParams `json:",omitempty"`
}

func hx(b []byte) string {
	if b == nil {
		return "nil"
	}
	return "hex:" + hex.EncodeToString(b)
}

func (c Call) String() string {
	var s []string
	add := func(n, v string) {
		if v != "" && v != "nil" {
			s = append(s, n+"="+v)
		}
	}
	add("key", hx(c.Key))
	add("ksn", hx(c.Ksn))
	add("data", hx(c.Data))
	add("iv", hx(c.IV))
	if c.Text != "" {
		t := c.Text
		if len(t) > 80 {
			t = fmt.Sprintf("%s...(%d bytes)", t[:40], len(t))
		}
		s = append(s, fmt.Sprintf("text=%q", t))
	}
	add("pan", c.Pan)
	add("fmt", c.Fmt)
	add("act", c.Act)
	if c.P != nil {
		s = append(s, fmt.Sprintf("params=%+v", *c.P))
	}
	return c.Fn + "(" + strings.Join(s, " ") + ")"
}

// Result of a call.
type Result struct {
	B     []byte
	S     string
	N     uint64
	OK    bool // no error
	Err   string
	Panic string
}

func (r Result) String() string {
	switch {
	case r.Panic != "":
		return "PANIC " + r.Panic
	case !r.OK:
		return "error " + r.Err
	case r.B != nil:
		return hx(r.B)
	default:
		return fmt.Sprintf("%q/%d", r.S, r.N)
	}
}

func (r Result) Equal(o Result) bool {
	return bytes.Equal(r.B, o.B) && r.S == o.S && r.N == o.N && r.OK == o.OK && r.Err == o.Err && r.Panic == o.Panic
}

// Exec runs the call on the real code, turning a panic into a result.
func Exec(c *Call) (r Result) {
	defer func() {
		if p := recover(); p != nil {
			st := string(debug.Stack())
			if i := strings.Index(st, "panic("); i >= 0 {
				st = st[i:]
			}
			if len(st) > 1200 {
				st = st[:1200]
			}
			r = Result{Panic: fmt.Sprintf("%v\n%s", p, st)}
		}
	}()
	return run(c)
}

func bres(b []byte, err error) Result {
	if err != nil {
		return Result{B: b, Err: err.Error()}
	}
	return Result{B: b, OK: true}
}
func sres(s string, err error) Result {
	if err != nil {
		return Result{S: s, Err: err.Error()}
	}
	return Result{S: s, OK: true}
}
func nres(n uint64) Result { return Result{N: n, OK: true} }

func run(c *Call) Result {
	switch c.Fn {
	case "des.IK":
		return bres(des.DerivationOfInitialKey(c.Key, c.Ksn))
	case "des.TK":
		return bres(des.DeriveCurrentTransactionKey(c.Key, c.Ksn))
	case "des.EncPin":
		return bres(des.EncryptPin(c.Key, c.Text, c.Pan, c.Fmt))
	case "des.DecPin":
		return sres(des.DecryptPin(c.Key, c.Data, c.Pan, c.Fmt))
	case "des.Mac":
		return bres(des.GenerateMac(c.Key, c.Text, c.Act))
	case "des.Enc":
		return bres(des.EncryptData(c.Key, c.IV, c.Text, c.Act))
	case "des.Dec":
		return sres(des.DecryptData(c.Key, c.Data, c.IV, c.Act))
	case "aes.IK":
		return bres(aes.DerivationOfInitialKey(c.Key, c.Ksn))
	case "aes.TK":
		return bres(aes.DeriveCurrentTransactionKey(c.Key, c.Ksn))
	case "aes.EncPin":
		return bres(aes.EncryptPin(c.Key, c.Ksn, c.Text, c.Pan, c.Fmt))
	case "aes.DecPin":
		return sres(aes.DecryptPin(c.Key, c.Ksn, c.Data, c.Pan, c.Fmt))
	case "aes.Cmac":
		return bres(aes.GenerateCMAC(c.Key, c.Ksn, c.Text, c.Fmt, c.Act))
	case "aes.Hmac":
		return bres(aes.GenerateHMAC(c.Key, c.Ksn, c.Text, c.Fmt, c.Act))
	case "aes.Enc":
		return bres(aes.EncryptData(c.Key, c.Ksn, c.IV, c.Text, c.Fmt, c.Act))
	case "aes.Dec":
		return sres(aes.DecryptData(c.Key, c.Ksn, c.Data, c.IV, c.Fmt, c.Act))
	case "pkg.NextAes":
		return bres(pkg.GenerateNextAesKsn(c.Ksn))
	case "pkg.NextDes":
		return bres(pkg.GenerateNextDesKsn(c.Ksn))
	case "pkg.ValidAes":
		if pkg.IsValidAesKsn(c.Ksn) {
			return nres(1)
		}
		return nres(0)
	case "pkg.TcAes":
		return nres(uint64(pkg.GetAesTcFromKsn(c.Ksn)))
	case "pkg.TcDes":
		return nres(uint64(pkg.GetDesTcFromKsn(c.Ksn)))
	case "pkg.HexDec":
		return Result{B: pkg.HexDecode(c.Text), OK: true}
	case "pkg.HexEnc":
		return Result{S: pkg.HexEncode(c.Data), OK: true}
	case "enc.AES", "enc.DES", "enc.3DES":
		return block(c)
	case "srv.IK":
		return sres(server.InitialKey(*c.P))
	case "srv.TK":
		return sres(server.TransactionKey(*c.P))
	case "srv.EncPin":
		return sres(server.EncryptPin(*c.P))
	case "srv.DecPin":
		return sres(server.DecryptPin(*c.P))
	case "srv.Mac":
		return sres(server.GenerateMac(*c.P))
	case "srv.Enc":
		return sres(server.EncryptData(*c.P))
	case "srv.Dec":
		return sres(server.DecryptData(*c.P))
	case "srv.Valid":
		return sres("", c.P.ValidateAlgorithm())
	}
	panic("harness: unknown function " + c.Fn)
}

type blockCipher interface {
	Encrypt([]byte) ([]byte, error)
	Decrypt([]byte) ([]byte, error)
}

func block(c *Call) Result {
	var e blockCipher
	var err error
	switch c.Fn {
	case "enc.AES":
		var x *encryption.AesECB
		x, err = encryption.NewAesECB(c.Key)
		e = x
	case "enc.DES":
		var x *encryption.DesECB
		x, err = encryption.NewDesECB(c.Key)
		e = x
	case "enc.3DES":
		var x *encryption.DesECB
		x, err = encryption.NewTripleDesECB(c.Key)
		e = x
	}
	if err != nil {
		return Result{Err: "new: " + err.Error()}
	}
	if c.Act == "D" {
		return bres(e.Decrypt(c.Data))
	}
	return bres(e.Encrypt(c.Data))
}

// overlap tells whether two slices share memory, up to their capacity.
func overlap(a, b []byte) bool {
	if cap(a) == 0 || cap(b) == 0 {
		return false
	}
	a, b = a[:cap(a)], b[:cap(b)]
	a0, a1 := uintptr(unsafe.Pointer(&a[0])), uintptr(unsafe.Pointer(&a[len(a)-1]))
	b0, b1 := uintptr(unsafe.Pointer(&b[0])), uintptr(unsafe.Pointer(&b[len(b)-1]))
	return a0 <= b1 && b0 <= a1
}

// Overlap tells whether two slices share memory, up to their capacity.
func Overlap(a, b []byte) bool { return overlap(a, b) }
