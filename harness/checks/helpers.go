package checks

import (
	"bytes"
	"crypto/cipher"
	"encoding/binary"
	"encoding/json"
	"fmt"
	"strings"

	"github.com/moov-io/dukpt/encryption"

	"verif.local/h/core"
	"verif.local/h/ref"
)

// Histories of calls on two block cipher helpers (C28). Whatever was called before, a helper encrypts and decrypts under
// the key it was made with, refuses blocks of any other size, and leaves its arguments and all earlier results alone.

// helperHist is a history. Kinds are the two helpers, Same whether they are made from the same key slice.
type helperHist struct {
	Kinds [2]int
	Same  bool
	Ops   []int
}

var helperKinds = []struct {
	name string
	key  int
	fn   string
}{{"AES-128", 16, "enc.AES"}, {"AES-192", 24, "enc.AES"}, {"AES-256", 32, "enc.AES"}, {"DES", 8, "enc.DES"}, {"TDES with 16 bytes", 16, "enc.3DES"}, {"TDES with 24 bytes", 24, "enc.3DES"}}

type helper interface {
	Encrypt([]byte) ([]byte, error)
	Decrypt([]byte) ([]byte, error)
}

type helperOp struct {
	obj  int
	what byte // E, D; e, d: the same with a block of the wrong size; B: encrypt through GetBlock; K: the caller reuses the key slice; R: and the latest result; I: and the latest argument
	in   int  // 0, 1: two constants; 2: latest result; 3: first result
}

func (o helperOp) String() string {
	in := []string{"a", "b", "latest result", "first result"}[o.in]
	switch o.what {
	case 'E', 'D', 'B':
		return fmt.Sprintf("%d.%c(%s)", o.obj, o.what, in)
	case 'e', 'd':
		return fmt.Sprintf("%d.%c(wrong size)", o.obj, o.what)
	}
	return map[byte]string{'K': "key overwritten", 'R': "latest result overwritten", 'I': "latest argument overwritten"}[o.what]
}

var helperOps = func() (o []helperOp) {
	for obj := 0; obj < 2; obj++ {
		for in := 0; in < 4; in++ {
			o = append(o, helperOp{obj, 'E', in}, helperOp{obj, 'D', in})
		}
		o = append(o, helperOp{obj, 'e', 0}, helperOp{obj, 'd', 0}, helperOp{obj, 'B', 0})
	}
	return append(o, helperOp{0, 'K', 0}, helperOp{0, 'R', 0}, helperOp{0, 'I', 0})
}()

func (h helperHist) String() string {
	var o []string
	for _, x := range h.Ops {
		o = append(o, helperOps[x].String())
	}
	return fmt.Sprintf("0 is %s, 1 is %s, same key slice %v: %s", helperKinds[h.Kinds[0]].name, helperKinds[h.Kinds[1]].name, h.Same, strings.Join(o, ", "))
}

func newHelper(kind int, key []byte) (helper, error) {
	switch helperKinds[kind].fn {
	case "enc.AES":
		return encryption.NewAesECB(key)
	case "enc.DES":
		return encryption.NewDesECB(key)
	}
	return encryption.NewTripleDesECB(key)
}

func helperRef(kind int, key, in []byte, decrypt bool) []byte {
	f := [2]func(k, b []byte) []byte{ref.AesE, ref.AesD}
	switch {
	case kind == 3:
		f = [2]func(k, b []byte) []byte{ref.DesE, ref.DesD}
	case kind == 4:
		f = [2]func(k, b []byte) []byte{ref.T2E, ref.T2D}
	case kind == 5:
		f = [2]func(k, b []byte) []byte{ref.T3E, ref.T3D}
	}
	if decrypt {
		return f[1](key, in)
	}
	return f[0](key, in)
}

type kept struct{ got, want []byte }

func judgeHelpers(h helperHist) (err error) {
	return safely(func() error {
		var objs [2]helper
		var keys [2][]byte
		slice := pattern(32, 1)
		var made [][]byte
		for i, k := range h.Kinds {
			n := helperKinds[k].key
			if !h.Same && i == 1 {
				slice = pattern(32, 2)
			}
			keys[i] = cp(slice[:n])
			made = append(made, slice)
			o, err := newHelper(k, slice[:n:n])
			if err != nil {
				return fmt.Errorf("%s is refused a key of %d bytes: %v", helperKinds[k].name, n, err)
			}
			objs[i] = o
		}
		var results []kept
		var arg kept
		for i, x := range h.Ops {
			o := helperOps[x]
			bad := func(format string, a ...any) error {
				return fmt.Errorf("step %d (%s): %s", i+1, o, fmt.Sprintf(format, a...))
			}
			kind := h.Kinds[o.obj]
			blk := 16
			if kind >= 3 {
				blk = 8
			}
			switch o.what {
			case 'K':
				for _, s := range made {
					for j := range s {
						s[j] = 0xA5
					}
				}
				continue
			case 'R':
				if n := len(results) - 1; n >= 0 {
					for j := range results[n].got {
						results[n].got[j] ^= 0x5A
						results[n].want[j] ^= 0x5A
					}
				}
				continue
			case 'I':
				for j := range arg.got {
					arg.got[j] = 0x3C
					arg.want[j] = 0x3C
				}
				for _, r := range results { // the argument may have been a result
					if len(r.got) > 0 && len(arg.got) > 0 && &r.got[0] == &arg.got[0] {
						copy(r.want, r.got)
					}
				}
				continue
			}
			var in []byte
			switch {
			case o.what == 'e' || o.what == 'd':
				in = pattern(blk+8, 5)[:blk+8]
				if i%2 == 1 {
					in = in[:blk-1]
				}
			case o.in == 0:
				in = pattern(blk, 3)
			case o.in == 1:
				in = rep(0, blk)
			case len(results) == 0:
				in = pattern(blk, 4)
			case o.in == 2:
				in = results[len(results)-1].got
			case o.in == 3:
				in = results[0].got
			}
			arg = kept{in, cp(in)}
			var got []byte
			var err error
			switch o.what {
			case 'E', 'e':
				got, err = objs[o.obj].Encrypt(in)
			case 'D', 'd':
				got, err = objs[o.obj].Decrypt(in)
			case 'B':
				g, ok := objs[o.obj].(interface{ GetBlock() cipher.Block })
				if !ok {
					continue
				}
				b := g.GetBlock()
				if b == nil || b.BlockSize() != blk {
					return bad("GetBlock gives %v", b)
				}
				got = make([]byte, blk)
				b.Encrypt(got, in)
			}
			if !bytes.Equal(in, arg.want) {
				return bad("the argument is changed from %x to %x", arg.want, in)
			}
			if len(in) != blk {
				if err == nil {
					return bad("a block of %d bytes is accepted", len(in))
				}
			} else {
				want := helperRef(kind, keys[o.obj], arg.want, o.what == 'D')
				if err != nil || !bytes.Equal(got, want) {
					return bad("answers %x %v, want %x", got, err, want)
				}
				results = append(results, kept{got, want})
				for _, r := range results { // the caller appends to what it was given
					spare := r.got[len(r.got):cap(r.got)]
					for j := range spare {
						spare[j] = 0xEE
					}
				}
			}
			for j, r := range results {
				if !bytes.Equal(r.got, r.want) {
					return bad("result %d changes from %x to %x", j+1, r.want, r.got)
				}
			}
		}
		return nil
	})
}

// longHelper is a long life of a helper: N blocks encrypted and decrypted, refused ones in between, further helpers made.
type longHelper struct{ Kind, N int }

func judgeLong(h longHelper) error {
	return safely(func() error {
		key := pattern(helperKinds[h.Kind].key, 7)
		o, err := newHelper(h.Kind, cp(key))
		if err != nil {
			return err
		}
		blk := 16
		if h.Kind >= 3 {
			blk = 8
		}
		in := make([]byte, blk)
		var results []kept
		for i := 0; i < h.N; i++ {
			binary.BigEndian.PutUint32(in[blk-4:], uint32(i))
			f := o.Encrypt
			if i%3 == 2 {
				f = o.Decrypt
			}
			got, err := f(in)
			want := helperRef(h.Kind, key, in, i%3 == 2)
			if err != nil || !bytes.Equal(got, want) {
				return fmt.Errorf("call %d of a %s helper with %x answers %x %v, want %x", i+1, helperKinds[h.Kind].name, in, got, err, want)
			}
			if i%100 == 7 || i < 10 {
				results = append(results, kept{got, want})
			}
			if i%100 == 50 {
				if _, err := o.Encrypt(in[:blk-1]); err == nil {
					return fmt.Errorf("call %d: a block of %d bytes is accepted", i+1, blk-1)
				}
				if other, err := newHelper(h.Kind, pattern(len(key), byte(i))); err == nil {
					other.Encrypt(in)
				}
			}
		}
		for j, r := range results {
			if !bytes.Equal(r.got, r.want) {
				return fmt.Errorf("%d calls of a %s helper: kept result %d changes from %x to %x", h.N, helperKinds[h.Kind].name, j+1, r.want, r.got)
			}
		}
		return nil
	})
}

// reused makes helpers of neighbouring keys, all from one slice that is written over each time; blocks come in one slice too. The
// helper made before goes on with its own key.
type reusedKey struct{ Kind, Base int }

func reusedKeys(n int) [][]byte { return [][]byte{pattern(n, 1), rep(0, n), rep(0xFF, n)} }

func judgeReused(h reusedKey) (n int64, err error) {
	err = safely(func() (err error) {
		size := helperKinds[h.Kind].key
		blk := 16
		if h.Kind >= 3 {
			blk = 8
		}
		base := reusedKeys(size)[h.Base]
		key, in := cp(base), pattern(blk, 9)
		var before helper
		var beforeKey []byte
		try := func(x []byte) bool {
			copy(key, x)
			o, e := newHelper(h.Kind, key)
			if e != nil {
				err = fmt.Errorf("%s is refused the key %x: %v", helperKinds[h.Kind].name, x, e)
				return false
			}
			n++
			in[int(n)%blk]++
			for _, y := range []struct {
				o   helper
				key []byte
			}{{o, x}, {before, beforeKey}} {
				if y.o == nil {
					continue
				}
				got, e := y.o.Encrypt(in)
				if want := helperRef(h.Kind, y.key, in, false); e != nil || !bytes.Equal(got, want) {
					err = fmt.Errorf("a %s helper of the key %x, from a slice used for other keys, encrypts %x to %x %v, want %x", helperKinds[h.Kind].name, y.key, in, got, e, want)
					return false
				}
				if got, e := y.o.Decrypt(in); e != nil || !bytes.Equal(got, helperRef(h.Kind, y.key, in, true)) {
					err = fmt.Errorf("a %s helper of the key %x, from a slice used for other keys, decrypts %x to %x %v", helperKinds[h.Kind].name, y.key, in, got, e)
					return false
				}
			}
			before, beforeKey = o, cp(x)
			return true
		}
		dev1(base, try)
		if err == nil {
			bits2(base, try)
		}
		return err
	})
	return
}

func replayReused(_ *core.Run, data json.RawMessage) error {
	var h reusedKey
	if err := json.Unmarshal(data, &h); err != nil {
		return err
	}
	_, err := judgeReused(h)
	return err
}

func replayLong(_ *core.Run, data json.RawMessage) error {
	var h longHelper
	if err := json.Unmarshal(data, &h); err != nil {
		return err
	}
	return judgeLong(h)
}

func replayHelpers(_ *core.Run, data json.RawMessage) error {
	var h helperHist
	if err := json.Unmarshal(data, &h); err != nil {
		return err
	}
	return judgeHelpers(h)
}

func runHelpers(r *core.Run) {
	long := pickN(r, 5000000, 140000)
	r.Parallel(len(helperKinds), func(w, i int) {
		h := longHelper{i, long}
		r.Busy(w, "helperlong", "long history of helper calls", h)
		r.Eval(int64(long))
		r.DistinctN(1)
		if err := judgeLong(h); err != nil {
			r.Violate("helperlong", fmt.Sprintf("helperlong:%d", i), err.Error(), h)
		}
	})
	r.Set("longest_helper_history", long)
	r.Parallel(len(helperKinds)*3, func(w, i int) {
		h := reusedKey{i / 3, i % 3}
		r.Busy(w, "helperreuse", "helpers of keys in one slice", h)
		n, err := judgeReused(h)
		r.Eval(n)
		r.DistinctN(n)
		r.Count("helpers_of_a_reused_key_slice", n)
		if err != nil {
			r.Violate("helperreuse", fmt.Sprintf("helperreuse:%d:%d", h.Kind, h.Base), err.Error(), h)
		}
	})
	pairs := [][2]int{{0, 0}, {0, 2}, {1, 2}, {3, 3}, {4, 5}, {4, 4}, {3, 4}, {0, 4}}
	depth := pickN(r, 5, 4)
	base := len(helperOps)
	total := 1
	for i := 0; i < depth; i++ {
		total *= base
	}
	const part = 1000
	parts := (total + part - 1) / part
	r.Parallel(len(pairs)*2*parts, func(w, i int) {
		h := helperHist{Kinds: pairs[i%len(pairs)], Same: i/len(pairs)%2 == 1, Ops: make([]int, depth)}
		lo := i / len(pairs) / 2 * part
		r.Busy(w, "helpers", "history of helper calls", h)
		var n int64
		for x := lo; x < min(lo+part, total); x++ {
			v := x
			for k := range h.Ops {
				h.Ops[k] = v % base
				v /= base
			}
			n++
			if x%700001 == 11 {
				r.Sample("helpers: " + h.String())
			}
			if err := judgeHelpers(h); err != nil {
				h.Ops = append([]int{}, h.Ops...)
				r.Violate("helpers", "helpers:"+h.String(), h.String()+": "+err.Error(), h)
				break
			}
		}
		r.Eval(n)
		r.DistinctN(n)
		r.Count("helper_histories", n)
	})
}
