package calls

import (
	"encoding/hex"

	"github.com/moov-io/dukpt/pkg/server"
)

// Bufs is the set of slices a sequence of calls shares. Sub-slices overlap on purpose: an AES-128 key is the head of
// the AES-256 key, an initial key ID is the head of the key serial number.
type Bufs struct {
	DesKey []byte // 16
	AesKey []byte // 32, sliced to 16 and 24
	DesKsn []byte // 10
	AesKsn []byte // 12, sliced to 8
	IV     []byte // 16, sliced to 8
	Data   []byte // 48: ciphertexts, blocks
	base   []byte // contents of variant 0
	back   []byte // everything lies in one array, each slice followed by guard bytes inside its capacity
	orig   []byte
}

const guardLen = 16

// NewBufs lays the slices out in one array. The capacity of every slice reaches over its guard bytes.
func NewBufs(seed byte) *Bufs {
	lens := []int{16, 32, 10, 12, 16, 48}
	n := 0
	for _, l := range lens {
		n += l + guardLen
	}
	b := &Bufs{back: make([]byte, n)}
	x := uint32(seed)*2654435761 + 99991
	for i := range b.back {
		x = x*1664525 + 1013904223
		b.back[i] = byte(x >> 24)
	}
	off := 0
	cut := func(i int) []byte {
		s := b.back[off : off+lens[i] : off+lens[i]+guardLen]
		off += lens[i] + guardLen
		return s
	}
	b.DesKey, b.AesKey, b.DesKsn, b.AesKsn, b.IV, b.Data = cut(0), cut(1), cut(2), cut(3), cut(4), cut(5)
	copy(b.DesKsn[7:], []byte{0xE0, 0x00, 0x07})
	copy(b.AesKsn[8:], []byte{0x00, 0x00, 0x00, 0x0B})
	b.base = append([]byte{}, b.back...)
	b.orig = append([]byte{}, b.back...)
	return b
}

// Variants of the contents: each changes little, so that a call that remembers an earlier one by only a part of its
// arguments answers wrongly.
const Variants = 9

// Apply writes variant v of the contents into the same memory.
func (b *Bufs) Apply(v int) {
	copy(b.back, b.base)
	flip := func(s []byte, i int) { s[i] ^= 0x12 }
	switch v {
	case 1:
		flip(b.DesKey, 0)
		flip(b.AesKey, 0)
	case 2:
		flip(b.DesKey, 15)
		flip(b.AesKey, 15)
		flip(b.AesKey, 23)
		flip(b.AesKey, 31)
	case 3: // next counter
		b.DesKsn[9]++
		b.AesKsn[11]++
	case 4: // counter bits further up
		b.DesKsn[8] ^= 0x14
		b.AesKsn[9] ^= 0x14
	case 5:
		flip(b.DesKsn, 0)
		flip(b.AesKsn, 0)
	case 6:
		flip(b.DesKsn, 6)
		flip(b.AesKsn, 7)
	case 7:
		flip(b.IV, 0)
		flip(b.Data, 0)
	}
	copy(b.orig, b.back)
}

// Alphabet is Shared under variant v. Variant 8 changes the texts.
func (b *Bufs) Alphabet(v int) []Call {
	b.Apply(v)
	cs := b.Shared()
	if v == 8 {
		alter := func(s string) string {
			if s == "" {
				return s
			}
			x := []byte(s)
			x[len(x)-1] ^= 1
			return string(x)
		}
		for i := range cs {
			cs[i].Text = alter(cs[i].Text)
			cs[i].Pan = alter(cs[i].Pan)
			if p := cs[i].P; p != nil {
				p.Plaintext, p.PIN, p.PAN = alter(p.Plaintext), alter(p.PIN), alter(p.PAN)
			}
		}
	}
	return cs
}

// Changed tells whether a call wrote into the arguments or behind them.
func (b *Bufs) Changed() (int, bool) {
	for i := range b.back {
		if b.back[i] != b.orig[i] {
			return i, true
		}
	}
	return 0, false
}

// Region names the part of the array an offset lies in.
func (b *Bufs) Region(off int) string {
	names := []string{"DES key", "AES key", "DES key serial number", "AES key serial number", "initial vector", "ciphertext"}
	for i, s := range [][]byte{b.DesKey, b.AesKey, b.DesKsn, b.AesKsn, b.IV, b.Data} {
		if off < len(s) {
			return names[i]
		}
		off -= len(s)
		if off < guardLen {
			return "memory behind the " + names[i]
		}
		off -= guardLen
	}
	return "?"
}

// Overlaps tells whether a slice shares memory with the argument array.
func (b *Bufs) Overlaps(s []byte) bool { return overlap(b.back, s) }

// Shared is the alphabet of calls on the shared slices: every library function, with all its modes, succeeding and
// failing. The first nCore ones are one per function.
func (b *Bufs) Shared() []Call {
	dk, a16, a24, a32 := b.DesKey, b.AesKey[:16], b.AesKey[:24], b.AesKey
	dks, aks, id := b.DesKsn, b.AesKsn, b.AesKsn[:8]
	iv8, iv16 := b.IV[:8], b.IV
	d8, d16, d48 := b.Data[:8], b.Data[:16], b.Data
	hexs := func(x []byte) string { return hex.EncodeToString(x) }
	sd := func(p server.UnifiedParams) *server.UnifiedParams { p.Algorithm = "des"; return &p }
	sa := func(p server.UnifiedParams) *server.UnifiedParams { p.Algorithm = "aes"; return &p }
	msg := "4012345678909D987 a message of some length"
	pin, pan := "1234", "4012345678909"
	return []Call{
		// one per function
		{Fn: "des.IK", Key: dk, Ksn: dks},
		{Fn: "des.TK", Key: dk, Ksn: dks},
		{Fn: "des.EncPin", Key: dk, Text: pin, Pan: pan, Fmt: "ISO-0"},
		{Fn: "des.DecPin", Key: dk, Data: d8, Pan: pan, Fmt: "ISO-0"},
		{Fn: "des.Mac", Key: dk, Text: msg, Act: "request"},
		{Fn: "des.Enc", Key: dk, IV: iv8, Text: msg, Act: "request"},
		{Fn: "des.Dec", Key: dk, IV: iv8, Data: d48, Act: "request"},
		{Fn: "aes.IK", Key: a16, Ksn: aks},
		{Fn: "aes.TK", Key: a16, Ksn: aks},
		{Fn: "aes.EncPin", Key: a16, Ksn: aks, Text: pin, Pan: pan, Fmt: "AES128"},
		{Fn: "aes.DecPin", Key: a16, Ksn: aks, Data: d16, Pan: pan, Fmt: "AES128"},
		{Fn: "aes.Cmac", Key: a16, Ksn: aks, Text: msg, Fmt: "AES128", Act: "request"},
		{Fn: "aes.Hmac", Key: a16, Ksn: aks, Text: msg, Fmt: "HMAC128", Act: "request"},
		{Fn: "aes.Enc", Key: a16, Ksn: aks, IV: iv16, Text: msg, Fmt: "AES128", Act: "request"},
		{Fn: "aes.Dec", Key: a16, Ksn: aks, IV: iv16, Data: d48, Fmt: "AES128", Act: "request"},
		{Fn: "pkg.NextAes", Ksn: aks},
		{Fn: "pkg.NextDes", Ksn: dks},
		{Fn: "pkg.ValidAes", Ksn: aks},
		{Fn: "pkg.TcAes", Ksn: aks},
		{Fn: "pkg.TcDes", Ksn: dks},
		{Fn: "pkg.HexEnc", Data: d48},
		{Fn: "pkg.HexDec", Text: "0123456789abcdefABCDEF"},
		{Fn: "enc.AES", Key: a16, Data: d16, Act: "E"},
		{Fn: "enc.DES", Key: dk[:8], Data: d8, Act: "E"},
		{Fn: "enc.3DES", Key: dk, Data: d8, Act: "E"},
		{Fn: "srv.TK", P: sd(server.UnifiedParams{IK: hexs(dk), KSN: hexs(dks)})},
		{Fn: "srv.TK", P: sa(server.UnifiedParams{IK: hexs(a16), KSN: hexs(aks)})},
		{Fn: "srv.Enc", P: sd(server.UnifiedParams{TK: hexs(dk), Plaintext: msg, IV: hexs(iv8)})},
		{Fn: "srv.Dec", P: sa(server.UnifiedParams{AlgorithmKey: "AES128", TK: hexs(a16), KSN: hexs(aks), Ciphertext: hexs(d48), IV: hexs(iv16)})},
		{Fn: "srv.Mac", P: sa(server.UnifiedParams{AlgorithmKey: "HMAC128", TK: hexs(a16), KSN: hexs(aks), Plaintext: msg, MacType: "hmac"})},
		// other sizes, directions and modes
		{Fn: "des.IK", Key: dk, Ksn: dks[:8]},
		{Fn: "des.TK", Key: dk, Ksn: dks[2:]},
		{Fn: "des.TK", Key: dk[:16:16], Ksn: dks[:10:10]},
		{Fn: "des.EncPin", Key: dk, Text: pin, Pan: pan, Fmt: "ISO-3"},
		{Fn: "des.EncPin", Key: dk, Text: pin, Pan: pan, Fmt: "VISA3"},
		{Fn: "des.EncPin", Key: dk, Text: pin, Pan: pan, Fmt: "ECI1"},
		{Fn: "des.Mac", Key: dk, Text: "x", Act: "response"},
		{Fn: "des.Mac", Key: dk, Text: "", Act: "response"},
		{Fn: "des.Enc", Key: dk, IV: iv8[:3], Text: msg[:16], Act: "response"},
		{Fn: "des.Enc", Key: dk, IV: iv16, Text: msg[:5], Act: "response"},
		{Fn: "des.Enc", Key: dk, Text: msg[:8], Act: "request"},
		{Fn: "des.Dec", Key: dk, IV: iv8[:3], Data: d8, Act: "response"},
		{Fn: "des.Dec", Key: dk, Data: d16, Act: "response"},
		{Fn: "aes.IK", Key: a24, Ksn: id},
		{Fn: "aes.IK", Key: a32, Ksn: aks},
		{Fn: "aes.TK", Key: a24, Ksn: aks},
		{Fn: "aes.TK", Key: a32, Ksn: aks},
		{Fn: "aes.EncPin", Key: a32, Ksn: aks, Text: "123456789012", Pan: "4012345678909123456", Fmt: "AES256"},
		{Fn: "aes.DecPin", Key: a24, Ksn: aks, Data: d16, Pan: pan, Fmt: "AES192"},
		{Fn: "aes.Cmac", Key: a32, Ksn: aks, Text: "", Fmt: "AES256", Act: "response"},
		{Fn: "aes.Hmac", Key: a24, Ksn: aks, Text: msg, Fmt: "HMAC192", Act: "response"},
		{Fn: "aes.Enc", Key: a24, Ksn: aks, IV: iv16[:5], Text: msg[:16], Fmt: "AES192", Act: "response"},
		{Fn: "aes.Enc", Key: a32, Ksn: aks, Text: msg[:5], Fmt: "AES256", Act: "request"},
		{Fn: "aes.Dec", Key: a32, Ksn: aks, IV: iv16[:5], Data: d16, Fmt: "AES256", Act: "response"},
		{Fn: "aes.Dec", Key: a24, Ksn: aks, Data: d48, Fmt: "AES192", Act: "request"},
		{Fn: "enc.AES", Key: a32, Data: d16, Act: "D"},
		{Fn: "enc.DES", Key: dk[8:], Data: d8, Act: "D"},
		{Fn: "enc.3DES", Key: b.AesKey[:24], Data: d8, Act: "D"},
		{Fn: "srv.EncPin", P: sd(server.UnifiedParams{TK: hexs(dk), PIN: pin, PAN: pan, Format: "ISO-0"})},
		{Fn: "srv.EncPin", P: sa(server.UnifiedParams{AlgorithmKey: "AES128", TK: hexs(a16), KSN: hexs(aks), PIN: pin, PAN: pan})},
		{Fn: "srv.IK", P: sa(server.UnifiedParams{BKD: hexs(a24), KSN: hexs(id)})},
		// failing calls
		{Fn: "des.IK", Key: dk[:15], Ksn: dks},
		{Fn: "des.TK", Key: dk, Ksn: aks},
		{Fn: "des.Enc", Key: a24, IV: iv8, Text: msg},
		{Fn: "des.DecPin", Key: dk, Data: d16, Pan: pan, Fmt: "ISO-0"},
		{Fn: "des.EncPin", Key: dk, Text: pin, Pan: pan, Fmt: "nope"},
		{Fn: "aes.TK", Key: a16, Ksn: id},
		{Fn: "aes.Enc", Key: a24, Ksn: aks, IV: iv16, Text: msg, Fmt: "AES128"},
		{Fn: "aes.Cmac", Key: a16, Ksn: id, Text: msg, Fmt: "AES128"},
		{Fn: "aes.DecPin", Key: a16, Ksn: aks, Data: d8, Pan: pan, Fmt: "AES128"},
		{Fn: "aes.Hmac", Key: a16, Ksn: aks, Text: msg, Fmt: "AES128"},
		{Fn: "pkg.NextAes", Ksn: id},
		{Fn: "pkg.NextDes", Ksn: dks[:2]},
		{Fn: "enc.AES", Key: a16, Data: d8, Act: "E"},
		{Fn: "srv.TK", P: sd(server.UnifiedParams{IK: "0g", KSN: hexs(dks)})},
		{Fn: "pkg.HexDec", Text: "0g"},
	}
}

// NCore is the number of calls at the head of Shared that cover every function once.
const NCore = 30
