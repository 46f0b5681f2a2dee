package ref

import (
	"crypto/aes"
	"crypto/sha256"
	"encoding/binary"
)

// usage indicators (X9.24-3 table 2)
const (
	UsePin      = 0x1000
	UseMacGen   = 0x2000
	UseMacVer   = 0x2001
	UseDataEnc  = 0x3000
	UseDataDec  = 0x3001
	UseDerive   = 0x8000
	UseInitial  = 0x8001
	AlgHMAC     = 5
	maxBlockAES = 16
)

func algAES(n int) uint16 {
	switch n {
	case 16:
		return 2
	case 24:
		return 3
	case 32:
		return 4
	}
	panic("key size")
}

func aesE(key, b []byte) []byte {
	c, err := aes.NewCipher(key)
	if err != nil {
		panic(err)
	}
	o := make([]byte, 16)
	c.Encrypt(o, b)
	return o
}
func aesD(key, b []byte) []byte {
	c, err := aes.NewCipher(key)
	if err != nil {
		panic(err)
	}
	o := make([]byte, 16)
	c.Decrypt(o, b)
	return o
}

func AesE(key, b []byte) []byte { return aesE(key, b) }
func AesD(key, b []byte) []byte { return aesD(key, b) }

// AesDerive: X9.24-3 6.3.1: ceil(L/128) ECB blocks of derivation data with a running block counter, leftmost L bits.
func AesDerive(key []byte, usage, alg uint16, bitLen int, tail []byte) []byte {
	var out []byte
	for i := 1; len(out)*8 < bitLen; i++ {
		d := make([]byte, 16)
		d[0] = 1
		d[1] = byte(i)
		binary.BigEndian.PutUint16(d[2:], usage)
		binary.BigEndian.PutUint16(d[4:], alg)
		binary.BigEndian.PutUint16(d[6:], uint16(bitLen))
		copy(d[8:], tail)
		out = append(out, aesE(key, d)...)
	}
	return out[:bitLen/8]
}

// AesIK: initial key from BDK and the 8-byte initial key ID.
func AesIK(bdk, id []byte) []byte {
	return AesDerive(bdk, UseInitial, algAES(len(bdk)), len(bdk)*8, id[:8])
}

// AesStep: one derivation step for counter prefix tc.
func AesStep(key, ksn []byte, tc uint32) []byte {
	return AesDerive(key, UseDerive, algAES(len(key)), len(key)*8, aesTail(ksn, tc))
}

func aesTail(ksn []byte, tc uint32) []byte {
	t := make([]byte, 8)
	copy(t, ksn[4:8])
	binary.BigEndian.PutUint32(t[4:], tc)
	return t
}

func AesTC(ksn []byte) uint32 { return binary.BigEndian.Uint32(ksn[len(ksn)-4:]) }
func AesSetTC(ksn []byte, tc uint32) []byte {
	o := append([]byte{}, ksn...)
	binary.BigEndian.PutUint32(o[len(o)-4:], tc)
	return o
}

func AesTK(ik, ksn []byte) []byte {
	tc := AesTC(ksn)
	k := append([]byte{}, ik...)
	reg := uint32(0)
	for b := 31; b >= 0; b-- {
		if tc>>uint(b)&1 == 1 {
			reg |= 1 << uint(b)
			k = AesStep(k, ksn, reg)
		}
	}
	return k
}

// AesWork derives a working key of the transaction key's own size.
func AesWork(tk, ksn []byte, usage uint16, hmac bool) []byte {
	alg := algAES(len(tk))
	if hmac {
		alg = AlgHMAC
	}
	return AesDerive(tk, usage, alg, len(tk)*8, aesTail(ksn, AesTC(ksn)))
}

func dataUse(resp bool) uint16 {
	if resp {
		return UseDataDec
	}
	return UseDataEnc
}
func macUse(resp bool) uint16 {
	if resp {
		return UseMacVer
	}
	return UseMacGen
}

func AesEnc(tk, ksn, iv, pt []byte, resp bool) []byte {
	c, _ := aes.NewCipher(AesWork(tk, ksn, dataUse(resp), false))
	return cbcE(c, 16, IV(iv, 16), pad(pt, 16))
}
func AesDec(tk, ksn, iv, ct []byte, resp bool) []byte {
	c, _ := aes.NewCipher(AesWork(tk, ksn, dataUse(resp), false))
	return cbcD(c, 16, IV(iv, 16), ct)
}

// AesCmac: SP 800-38B.
func AesCmac(tk, ksn, msg []byte, resp bool) []byte {
	key := AesWork(tk, ksn, macUse(resp), false)
	c, _ := aes.NewCipher(key)
	dbl := func(b []byte) []byte {
		o := make([]byte, 16)
		var carry byte
		for i := 15; i >= 0; i-- {
			o[i] = b[i]<<1 | carry
			carry = b[i] >> 7
		}
		if carry == 1 {
			o[15] ^= 0x87
		}
		return o
	}
	l := make([]byte, 16)
	c.Encrypt(l, l)
	k1 := dbl(l)
	k2 := dbl(k1)
	n := (len(msg) + 15) / 16
	if n == 0 {
		n = 1
	}
	last := make([]byte, 16)
	tail := msg[(n-1)*16:]
	copy(last, tail)
	if len(tail) == 16 {
		last = xor(last, k1)
	} else {
		last[len(tail)] = 0x80
		last = xor(last, k2)
	}
	h := make([]byte, 16)
	for i := 0; i < n-1; i++ {
		for j := range h {
			h[j] ^= msg[i*16+j]
		}
		c.Encrypt(h, h)
	}
	h = xor(h, last)
	c.Encrypt(h, h)
	return h
}

// AesHmac: HMAC-SHA-256 written out (FIPS 198-1).
func AesHmac(tk, ksn, msg []byte, resp bool) []byte {
	key := AesWork(tk, ksn, macUse(resp), true)
	ip := make([]byte, 64)
	op := make([]byte, 64)
	copy(ip, key)
	copy(op, key)
	for i := range ip {
		ip[i] ^= 0x36
		op[i] ^= 0x5C
	}
	in := sha256.Sum256(append(ip, msg...))
	out := sha256.Sum256(append(op, in[:]...))
	return out[:]
}
