// Package ref holds the reference models: DUKPT (ANSI X9.24-1 and X9.24-3), PIN blocks, MACs and the sequential
// machine service, written from the standards' text and independent of the code under test. Trusted base: the Go
// standard library's single-block DES and AES and SHA-256.
package ref

import (
	"crypto/des"
	"math/bits"
)

func xor(a, b []byte) []byte {
	o := make([]byte, len(a))
	for i := range a {
		o[i] = a[i] ^ b[i]
	}
	return o
}

// desE and desD: single DES on one block.
func desE(key, blk []byte) []byte {
	c, err := des.NewCipher(key)
	if err != nil {
		panic(err)
	}
	o := make([]byte, 8)
	c.Encrypt(o, blk)
	return o
}
func desD(key, blk []byte) []byte {
	c, err := des.NewCipher(key)
	if err != nil {
		panic(err)
	}
	o := make([]byte, 8)
	c.Decrypt(o, blk)
	return o
}

// DesE / DesD are exported for the block helper property.
func DesE(key, blk []byte) []byte { return desE(key, blk) }
func DesD(key, blk []byte) []byte { return desD(key, blk) }

// T2E, T2D: two-key triple DES (E-D-E), key of 16 bytes; T3E, T3D: three-key, 24 bytes.
func T2E(k, b []byte) []byte { return desE(k[:8], desD(k[8:16], desE(k[:8], b))) }
func T2D(k, b []byte) []byte { return desD(k[:8], desE(k[8:16], desD(k[:8], b))) }
func T3E(k, b []byte) []byte { return desE(k[16:24], desD(k[8:16], desE(k[:8], b))) }
func T3D(k, b []byte) []byte { return desD(k[:8], desE(k[8:16], desD(k[16:24], b))) }

// PadKSN left-pads a TDES KSN with FF to 10 bytes.
func PadKSN(ksn []byte) []byte {
	o := make([]byte, 10)
	for i := range o {
		o[i] = 0xFF
	}
	copy(o[10-len(ksn):], ksn)
	return o
}

var c0mask = []byte{0xC0, 0xC0, 0xC0, 0xC0, 0, 0, 0, 0, 0xC0, 0xC0, 0xC0, 0xC0, 0, 0, 0, 0}

// TdesIK: X9.24-1 A.6.
func TdesIK(bdk, ksn []byte) []byte {
	k := PadKSN(ksn)
	k[9], k[8] = 0, 0
	k[7] &^= 0x1F
	l := T2E(bdk, k[:8])
	r := T2E(xor(bdk, c0mask), k[:8])
	return append(append([]byte{}, l...), r...)
}

// TdesStep: one non-reversible key generation step (X9.24-1 A.2), key register k, r8 the right 8 bytes of the KSN
// register.
func TdesStep(k, r8 []byte) []byte {
	gen := func(key []byte) []byte {
		t := xor(r8, key[8:16])
		t = desE(key[:8], t)
		return xor(t, key[8:16])
	}
	right := gen(k)
	left := gen(xor(k, c0mask))
	return append(append([]byte{}, left...), right...)
}

// TdesTC reads the 21-bit counter of a padded KSN.
func TdesTC(ksn []byte) uint32 {
	n := len(ksn)
	return (uint32(ksn[n-3])<<16 | uint32(ksn[n-2])<<8 | uint32(ksn[n-1])) & 0x1FFFFF
}

// TdesSetTC returns a copy of ksn with its low 21 bits replaced.
func TdesSetTC(ksn []byte, tc uint32) []byte {
	o := append([]byte{}, ksn...)
	n := len(o)
	o[n-1], o[n-2] = byte(tc), byte(tc>>8)
	o[n-3] = o[n-3]&0xE0 | byte(tc>>16)&0x1F
	return o
}

// TdesTK: X9.24-1 A.3, one step per set bit from the top.
func TdesTK(ik, ksn []byte) []byte {
	k := append([]byte{}, ik...)
	p := PadKSN(ksn)
	tc := TdesTC(p)
	reg := uint32(0)
	for b := 20; b >= 0; b-- {
		if tc>>uint(b)&1 == 1 {
			reg |= 1 << uint(b)
			k = TdesStep(k, TdesSetTC(p, reg)[2:])
		}
	}
	return k
}

// Valid counters.
func TdesValidTC(tc uint32) bool { return tc != 0 && tc <= 0x1FFFFF && bits.OnesCount32(tc) <= 10 }
func AesValidTC(tc uint32) bool  { return tc != 0 && bits.OnesCount32(tc) <= 16 }

// TdesNextTC returns the smallest valid counter above tc.
func TdesNextTC(tc uint32) (uint32, bool) {
	for t := tc + 1; t <= 0x1FFFFF; t++ {
		if TdesValidTC(t) {
			return t, true
		}
	}
	return 0, false
}

// AesNextTC: smallest valid counter above tc, by direct construction (clear everything from some zero bit down, set
// that bit), checked against a linear scan in the self test.
func AesNextTC(tc uint32) (uint32, bool) {
	for b := uint(0); b < 32; b++ {
		if tc>>b&1 == 1 {
			continue
		}
		// candidate: keep the bits above b, set b, clear below
		t := tc>>b | 1
		t <<= b
		if AesValidTC(t) {
			return t, true
		}
	}
	return 0, false
}

// variants of the current key: byte offset in each half (X9.24-1 A.4.1 table A-1)
func variant(tk []byte, off int) []byte {
	k := append([]byte{}, tk...)
	k[off] ^= 0xFF
	k[off+8] ^= 0xFF
	return k
}

func TdesPinKey(tk []byte) []byte { return variant(tk, 7) }
func TdesMacKey(tk []byte, resp bool) []byte {
	if resp {
		return variant(tk, 4)
	}
	return variant(tk, 6)
}

// TdesDataKey: the variant encrypted under itself (one-way function of figure A-2).
func TdesDataKey(tk []byte, resp bool) []byte {
	v := variant(tk, 5)
	if resp {
		v = variant(tk, 3)
	}
	return append(T2E(v, v[:8]), T2E(v, v[8:])...)
}

func pad(b []byte, n int) []byte {
	o := append([]byte{}, b...)
	for len(o)%n != 0 {
		o = append(o, 0)
	}
	return o
}

// IV normalises an initial vector to one block.
func IV(iv []byte, n int) []byte {
	o := make([]byte, n)
	copy(o, iv)
	return o
}

// TdesEnc / TdesDec: CBC.
func TdesEnc(tk, iv, pt []byte, resp bool) []byte {
	k := TdesDataKey(tk, resp)
	e := tdesPair(k)
	return cbcE(e, 8, IV(iv, 8), pad(pt, 8))
}
func TdesDec(tk, iv, ct []byte, resp bool) []byte {
	k := TdesDataKey(tk, resp)
	e := tdesPair(k)
	return cbcD(e, 8, IV(iv, 8), ct)
}

type blk interface {
	Encrypt(d, s []byte)
	Decrypt(d, s []byte)
}

// edePair: triple DES from two single-DES ciphers with cached key schedules.
type edePair struct{ a, b blk }

func tdesPair(k []byte) blk {
	a, _ := des.NewCipher(k[:8])
	b, _ := des.NewCipher(k[8:16])
	return edePair{a, b}
}
func (p edePair) Encrypt(d, s []byte) { p.a.Encrypt(d, s); p.b.Decrypt(d, d); p.a.Encrypt(d, d) }
func (p edePair) Decrypt(d, s []byte) { p.a.Decrypt(d, s); p.b.Encrypt(d, d); p.a.Decrypt(d, d) }

func cbcE(c blk, n int, iv, pt []byte) []byte {
	out := make([]byte, 0, len(pt))
	prev := iv
	t := make([]byte, n)
	for i := 0; i < len(pt); i += n {
		for j := 0; j < n; j++ {
			t[j] = pt[i+j] ^ prev[j]
		}
		c.Encrypt(t, t)
		out = append(out, t...)
		prev = out[i : i+n]
	}
	return out
}
func cbcD(c blk, n int, iv, ct []byte) []byte {
	out := make([]byte, 0, len(ct))
	prev := iv
	t := make([]byte, n)
	for i := 0; i < len(ct); i += n {
		c.Decrypt(t, ct[i:i+n])
		for j := 0; j < n; j++ {
			t[j] ^= prev[j]
		}
		out = append(out, t...)
		prev = ct[i : i+n]
	}
	return out
}

// TdesMac: ISO 9797-1 MAC algorithm 3, padding method 1.
func TdesMac(tk, msg []byte, resp bool) []byte {
	k := TdesMacKey(tk, resp)
	l, _ := des.NewCipher(k[:8])
	h := make([]byte, 8)
	m := pad(msg, 8)
	for i := 0; i < len(m); i += 8 {
		for j := 0; j < 8; j++ {
			h[j] ^= m[i+j]
		}
		l.Encrypt(h, h)
	}
	h = desD(k[8:], h)
	return desE(k[:8], h)
}
