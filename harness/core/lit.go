package core

import (
	"encoding/hex"
	"encoding/json"
	"os"
	"path/filepath"
	"slices"
	"strconv"
	"strings"
	"sync"
)

// Literals are the constants of the code under test as mklit wrote them: inputs the code may single out. They only ever
// choose inputs; no expectation comes from them.
type Literals struct {
	Strings []string
	Ints    []uint64
}

// Lit reads the constants; without a file there are none.
var Lit = sync.OnceValue(func() *Literals {
	var raw struct {
		Strings [][]byte
		Ints    []uint64
	}
	l := &Literals{}
	b, err := os.ReadFile(filepath.Join(os.Getenv("VERIF_DIR"), "out", "literals.json"))
	if err != nil || json.Unmarshal(b, &raw) != nil {
		return l
	}
	seen := map[string]bool{}
	add := func(s string) {
		if len(s) <= 120 && !seen[s] {
			seen[s] = true
			l.Strings = append(l.Strings, s)
		}
	}
	for _, x := range raw.Strings {
		s := string(x)
		add(s)
		add(strings.ToUpper(s))
		add(strings.ToLower(s))
		add(strings.TrimSpace(s))
		if d, err := hex.DecodeString(s); err == nil {
			add(string(d))
		}
		for _, p := range strings.FieldsFunc(s, func(c rune) bool { return strings.ContainsRune(" ,;/|:", c) }) {
			add(p)
		}
	}
	l.Ints = raw.Ints
	return l
})

// Texts are the constants of at most n characters.
func (l *Literals) Texts(n int) (o []string) {
	for _, s := range l.Strings {
		if len(s) <= n {
			o = append(o, s)
		}
	}
	return
}

// Numbers are the whole numbers among the constants, with the neighbours of each.
func (l *Literals) Numbers() (o []uint64) {
	for _, n := range l.Ints {
		o = append(o, n-1, n, n+1)
	}
	slices.Sort(o)
	return slices.Compact(o)
}

// Sizes are sizes up to max that the numbers suggest.
func (l *Literals) Sizes(max int) (o []int) {
	for _, n := range l.Ints {
		for _, m := range []uint64{n, 2 * n, n / 2} {
			for _, x := range []uint64{m - 1, m, m + 1} {
				if x <= uint64(max) {
					o = append(o, int(x))
				}
			}
		}
	}
	slices.Sort(o)
	return slices.Compact(o)
}

// Digits are strings of exactly n decimal digits: constants of digits and the numbers, cut or filled up, in front and behind.
func (l *Literals) Digits(n int, fill string) (o []string) {
	seen := map[string]bool{}
	add := func(s string) {
		if len(s) == n && !seen[s] {
			seen[s] = true
			o = append(o, s)
		}
	}
	use := func(d string) {
		if d == "" || strings.Trim(d, "0123456789") != "" {
			return
		}
		if len(d) >= n {
			add(d[:n])
			add(d[len(d)-n:])
			return
		}
		for _, f := range []string{fill, strings.Repeat("0", n)} {
			add(d + f[:n-len(d)])
			add(f[:n-len(d)] + d)
		}
		add(strings.Repeat(d, n)[:n])
		h := (n - len(d)) / 2
		add(fill[:h] + d + fill[h:n-len(d)])
	}
	for _, s := range l.Strings {
		use(s)
	}
	for _, x := range l.Ints {
		use(strconv.FormatUint(x, 10))
		use(strconv.FormatUint(x, 16))
	}
	return
}

// Exact are the constants of exactly n bytes, as they are or as hexadecimal text.
func (l *Literals) Exact(n int) (o [][]byte) {
	for _, s := range l.Strings {
		if len(s) == n {
			o = append(o, []byte(s))
		}
		if d, err := hex.DecodeString(s); err == nil && len(d) == n {
			o = append(o, d)
		}
	}
	return
}

// Bytes are byte strings as long as base made of the constants: filled up with zeros and with base, in front and behind,
// repeated, and the numbers in either byte order at either end.
func (l *Literals) Bytes(base []byte) (o [][]byte) {
	n := len(base)
	seen := map[string]bool{}
	add := func(b []byte) {
		if !seen[string(b)] {
			seen[string(b)] = true
			o = append(o, b)
		}
	}
	use := func(d []byte) {
		if len(d) == 0 {
			return
		}
		if len(d) > n {
			add(append([]byte{}, d[:n]...))
			add(append([]byte{}, d[len(d)-n:]...))
			return
		}
		for _, f := range [][]byte{base, make([]byte, n)} {
			b := append([]byte{}, f...)
			copy(b, d)
			add(b)
			b = append([]byte{}, f...)
			copy(b[n-len(d):], d)
			add(b)
		}
		var b []byte
		for len(b) < n {
			b = append(b, d...)
		}
		add(b[:n:n])
	}
	for _, s := range l.Strings {
		use([]byte(s))
		if len(s)%2 == 0 {
			if d, err := hex.DecodeString(s); err == nil {
				use(d)
			}
		}
	}
	for _, x := range l.Numbers() {
		for w := 8; w >= 1; w /= 2 {
			if w < 8 && x>>(8*w) != 0 {
				break
			}
			be, le := make([]byte, w), make([]byte, w)
			for i := 0; i < w; i++ {
				be[w-1-i], le[i] = byte(x>>(8*i)), byte(x>>(8*i))
			}
			use(be)
			use(le)
		}
	}
	return
}
