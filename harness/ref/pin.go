package ref

import (
	"encoding/hex"
	"fmt"
	"strings"
)

// PinSpec describes a PIN block format.
type PinSpec struct {
	Kind   string // iso0 iso1 iso2 iso3 eci2 eci3 visa2 visa3
	Min    int
	Max    int
	Pan    bool // PAN of at least 13 digits needed
	TooBig string
}

// Formats: the 8-byte formats. (ISO-4 is a 16-byte format and cannot be carried by TDES.)
var Formats = map[string]PinSpec{
	"ISO-0": {Kind: "iso0", Min: 4, Max: 12, Pan: true}, "ANSI": {Kind: "iso0", Min: 4, Max: 12, Pan: true},
	"ECI1": {Kind: "iso0", Min: 4, Max: 12, Pan: true}, "VISA1": {Kind: "iso0", Min: 4, Max: 12, Pan: true},
	"VISA4": {Kind: "iso0", Min: 4, Max: 12, Pan: true}, "ISO-3": {Kind: "iso3", Min: 4, Max: 12, Pan: true},
	"ISO-1": {Kind: "iso1", Min: 4, Max: 12}, "ECI4": {Kind: "iso1", Min: 4, Max: 12},
	"ISO-2": {Kind: "iso2", Min: 4, Max: 12},
	"ECI2":  {Kind: "eci2", Min: 4, Max: 4}, "ECI3": {Kind: "eci3", Min: 4, Max: 6},
	"VISA2": {Kind: "visa2", Min: 4, Max: 6}, "VISA3": {Kind: "visa3", Min: 4, Max: 12},
}

// FormatNames in a fixed order.
var FormatNames = []string{"ISO-0", "ISO-1", "ISO-2", "ISO-3", "ANSI", "ECI1", "ECI2", "ECI3", "ECI4", "VISA1", "VISA2", "VISA3", "VISA4"}

func Digits(s string) bool {
	for _, c := range s {
		if c < '0' || c > '9' {
			return false
		}
	}
	return true
}

func panPart(pan string) []byte {
	b, _ := hex.DecodeString("0000" + pan[len(pan)-13:len(pan)-1])
	return b
}

// MakeBlock builds a clear PIN block with the fill chosen from fill (any value legal for the format is produced by
// varying it).
func MakeBlock(format, pin, pan string, fill byte) []byte {
	sp := Formats[format]
	var s string
	rep := func(c byte, n int) string { return strings.Repeat(string(c), n) }
	hexd := "0123456789ABCDEF"
	switch sp.Kind {
	case "iso0":
		s = fmt.Sprintf("0%X%s%s", len(pin), pin, rep('F', 14-len(pin)))
	case "iso3":
		s = fmt.Sprintf("3%X%s%s", len(pin), pin, rep(hexd[10+int(fill)%6], 14-len(pin)))
	case "iso1":
		s = fmt.Sprintf("1%X%s%s", len(pin), pin, rep(hexd[int(fill)%10], 14-len(pin)))
	case "iso2":
		s = fmt.Sprintf("2%X%s%s", len(pin), pin, rep('F', 14-len(pin)))
	case "eci2":
		s = pin + rep(hexd[int(fill)%16], 12)
	case "eci3":
		s = fmt.Sprintf("%d%s%s%s", len(pin), pin, rep('0', 6-len(pin)), rep(hexd[int(fill)%16], 9))
	case "visa2":
		s = fmt.Sprintf("%d%s%s%s", len(pin), pin, rep('0', 6-len(pin)), rep(hexd[int(fill)%10], 9))
	case "visa3":
		s = pin + "F" + rep(hexd[10+int(fill)%6], 15-len(pin))
	}
	b, err := hex.DecodeString(s)
	if err != nil || len(b) != 8 {
		panic("MakeBlock " + s)
	}
	if sp.Pan {
		b = xor(b, panPart(pan))
	}
	return b
}

// CheckBlock verifies that a clear block is a legal encoding of pin/pan in the format.
func CheckBlock(format, pin, pan string, blk []byte) error {
	sp := Formats[format]
	if len(blk) != 8 {
		return fmt.Errorf("block of %d bytes", len(blk))
	}
	b := blk
	if sp.Pan {
		b = xor(blk, panPart(pan))
	}
	s := strings.ToUpper(hex.EncodeToString(b))
	want := func(prefix string, ok func(c byte) bool) error {
		if !strings.HasPrefix(s, prefix) {
			return fmt.Errorf("block %s does not start %s", s, prefix)
		}
		for i := len(prefix); i < 16; i++ {
			if !ok(s[i]) {
				return fmt.Errorf("block %s has illegal fill at %d", s, i)
			}
		}
		return nil
	}
	dec := func(c byte) bool { return c >= '0' && c <= '9' }
	let := func(c byte) bool { return c >= 'A' && c <= 'F' }
	isF := func(c byte) bool { return c == 'F' }
	any := func(c byte) bool { return true }
	switch sp.Kind {
	case "iso0":
		return want(fmt.Sprintf("0%X%s", len(pin), pin), isF)
	case "iso3":
		return want(fmt.Sprintf("3%X%s", len(pin), pin), let)
	case "iso1":
		return want(fmt.Sprintf("1%X%s", len(pin), pin), dec)
	case "iso2":
		return want(fmt.Sprintf("2%X%s", len(pin), pin), isF)
	case "eci2":
		return want(pin, any)
	case "eci3":
		return want(fmt.Sprintf("%d%s%s", len(pin), pin, strings.Repeat("0", 6-len(pin))), any)
	case "visa2":
		return want(fmt.Sprintf("%d%s%s", len(pin), pin, strings.Repeat("0", 6-len(pin))), dec)
	case "visa3":
		if e := want(pin+"F", let); e != nil {
			return e
		}
		for i := len(pin) + 1; i < 16; i++ {
			if s[i] != s[len(pin)+1] && len(pin)+1 < 16 {
				return fmt.Errorf("block %s has mixed fill", s)
			}
		}
		return nil
	}
	return fmt.Errorf("unknown format %s", format)
}

// ISO format 4.
func panBlock4(pan string) []byte {
	s := fmt.Sprintf("%X%s", len(pan)-12, pan)
	s += strings.Repeat("0", 32-len(s))
	b, err := hex.DecodeString(s)
	if err != nil {
		panic(err)
	}
	return b
}

// Iso4Enc builds a ciphertext with the given random tail.
func Iso4Enc(key []byte, pin, pan string, rnd []byte) []byte {
	s := fmt.Sprintf("4%X%s%s", len(pin), pin, strings.Repeat("A", 14-len(pin)))
	b, err := hex.DecodeString(s)
	if err != nil {
		panic(err)
	}
	b = append(b, rnd[:8]...)
	a := aesE(key, b)
	return aesE(key, xor(a, panBlock4(pan)))
}

// Iso4Check verifies that ct is an ISO-4 encipherment of pin/pan.
func Iso4Check(key []byte, pin, pan string, ct []byte) error {
	if len(ct) != 16 {
		return fmt.Errorf("ciphertext of %d bytes", len(ct))
	}
	b := aesD(key, xor(aesD(key, ct), panBlock4(pan)))
	s := strings.ToUpper(hex.EncodeToString(b[:8]))
	w := fmt.Sprintf("4%X%s%s", len(pin), pin, strings.Repeat("A", 14-len(pin)))
	if s != w {
		return fmt.Errorf("clear block field %s, want %s", s, w)
	}
	return nil
}

// BlockPin extracts the PIN of a block that is a legal encoding in the format; ok=false for any other block (about
// which nothing is specified except that decoding must not crash).
func BlockPin(format, pan string, blk []byte) (string, bool) {
	sp := Formats[format]
	b := blk
	if sp.Pan {
		b = xor(blk, panPart(pan))
	}
	s := strings.ToUpper(hex.EncodeToString(b))
	n := 0
	off := 2
	switch sp.Kind {
	case "iso0", "iso1", "iso2", "iso3":
		n = strings.IndexByte("0123456789ABCDEF", s[1])
	case "eci2":
		n, off = 4, 0
	case "eci3", "visa2":
		n, off = strings.IndexByte("0123456789ABCDEF", s[0]), 1
	case "visa3":
		n, off = strings.IndexByte(s, 'F'), 0
	}
	if n < sp.Min || n > sp.Max {
		return "", false
	}
	pin := s[off : off+n]
	if !Digits(pin) || CheckBlock(format, pin, pan, blk) != nil {
		return "", false
	}
	return pin, true
}

// Iso4Pin: the same for format 4.
func Iso4Pin(key []byte, pan string, ct []byte) (string, bool) {
	b := aesD(key, xor(aesD(key, ct), panBlock4(pan)))
	s := strings.ToUpper(hex.EncodeToString(b[:8]))
	n := strings.IndexByte("0123456789ABCDEF", s[1])
	if n < 4 || n > 12 {
		return "", false
	}
	pin := s[2 : 2+n]
	if !Digits(pin) || Iso4Check(key, pin, pan, ct) != nil {
		return "", false
	}
	return pin, true
}

// Iso4Wrap enciphers an arbitrary 16-byte clear PIN field.
func Iso4Wrap(key, blk []byte, pan string) []byte {
	return aesE(key, xor(aesE(key, blk), panBlock4(pan)))
}
