package racechecks

import (
	"crypto/sha256"
	"encoding/hex"
	"encoding/json"
	"errors"
	"fmt"
	"runtime/debug"
	"sort"
	"strconv"
	"strings"
	"sync/atomic"
	"time"

	"github.com/moov-io/dukpt/pkg/server"

	"verif.local/h/core"
	"verif.local/h/model"
	"verif.local/h/sched"
)

func init() {
	core.Register(&core.Check{ID: "C29", Level: "exploration", Race: true, Shard: runC29,
		Replay: map[string]func(*core.Run, json.RawMessage) error{"schedule": replaySchedule(repoBuild), "sequence": replayRepoSeq}})
}

// rop is one repository call.
type rop struct {
	Fn  string // store storenil find list delete
	Key string
	Tag string // what tells stored records with the same key apart
}

func (o rop) String() string {
	switch o.Fn {
	case "store":
		return fmt.Sprintf("store(%q,%s)", o.Key, o.Tag)
	case "list", "storenil":
		return o.Fn + "()"
	}
	return fmt.Sprintf("%s(%q)", o.Fn, o.Key)
}

type rres struct {
	Kind string // ok record list error panic
	S    string
	NF   bool
}

func (r rres) String() string { return r.Kind + " " + r.S }

func rexec(repo server.Repository, o rop) (res rres) {
	defer func() {
		if p := recover(); p != nil {
			res = rres{Kind: "panic", S: fmt.Sprintf("%v\n%s", p, debug.Stack())}
		}
	}()
	fail := func(err error) rres {
		if err == nil {
			return rres{Kind: "ok"}
		}
		return rres{Kind: "error", S: err.Error(), NF: errors.Is(err, server.ErrNotFound)}
	}
	switch o.Fn {
	case "store":
		return fail(repo.StoreMachine(rmachine(o.Key, o.Tag)))
	case "storenil":
		return fail(repo.StoreMachine(nil))
	case "find":
		m, err := repo.FindMachine(o.Key)
		if err != nil {
			return fail(err)
		}
		if m == nil {
			return rres{Kind: "record", S: "nil"}
		}
		return rres{Kind: "record", S: rcanon(m)}
	case "list":
		return rres{Kind: "list", S: rlist(repo)}
	case "delete":
		return fail(repo.DeleteMachine(o.Key))
	}
	panic("harness")
}

// rmachine is a record with something of its own in every field.
func rmachine(key, tag string) *server.Machine {
	return &server.Machine{BaseKey: server.BaseKey{Algorithm: "alg" + tag, AlgorithmKey: "alk" + tag, BaseDerivativeKey: "bdk" + tag, KeySerialNumber: "ser" + tag},
		InitialKey: key, TransactionKey: tag, CurrentKSN: "ksn" + tag, CreatedAt: rtime}
}

var rtime = time.Date(2001, 2, 3, 4, 5, 6, 7, time.UTC)

func rcanon(m *server.Machine) string {
	s := m.InitialKey + "=" + m.TransactionKey + "/" + m.CurrentKSN
	t := m.TransactionKey
	has := func(v, p string) bool { return len(v) == len(p)+len(t) && v[:len(p)] == p && v[len(p):] == t }
	if !has(m.Algorithm, "alg") || !has(m.AlgorithmKey, "alk") || !has(m.BaseDerivativeKey, "bdk") || !has(m.KeySerialNumber, "ser") || !m.CreatedAt.Equal(rtime) {
		s += fmt.Sprintf(" with %+v", m.BaseKey) + " of " + m.CreatedAt.UTC().Format(time.RFC3339Nano)
	}
	return s
}

func rlist(repo server.Repository) string {
	var o []string
	for _, m := range repo.FindAllMachines() {
		if m == nil {
			o = append(o, "nil")
		} else {
			o = append(o, rcanon(m))
		}
	}
	sort.Strings(o)
	return strings.Join(o, ",")
}

// rstate is the specification: a map.
type rstate map[string]string

func (s rstate) list() string {
	var o []string
	for k, v := range s {
		o = append(o, k+"="+v+"/ksn"+v)
	}
	sort.Strings(o)
	return strings.Join(o, ",")
}

func (s rstate) clone() rstate {
	c := rstate{}
	for k, v := range s {
		c[k] = v
	}
	return c
}

// step applies the call and checks the answer.
func (s rstate) step(o rop, r rres) error {
	bad := func(want string) error { return fmt.Errorf("%s answered %s, want %s", o, r, want) }
	if r.Kind == "panic" {
		return bad("no panic")
	}
	switch o.Fn {
	case "store":
		if _, had := s[o.Key]; had {
			if r.Kind != "error" {
				return bad("an error: the key is taken")
			}
			return nil
		}
		s[o.Key] = o.Tag
		if r.Kind != "ok" {
			return bad("ok")
		}
	case "storenil":
		if r.Kind != "error" {
			return bad("an error")
		}
	case "find":
		v, had := s[o.Key]
		switch {
		case !had && (r.Kind != "error" || !r.NF):
			return bad("not found")
		case had && (r.Kind != "record" || r.S != o.Key+"="+v+"/ksn"+v):
			return bad("the stored machine " + v)
		}
	case "list":
		if r.Kind != "list" || r.S != s.list() {
			return bad(s.list())
		}
	case "delete":
		_, had := s[o.Key]
		delete(s, o.Key)
		if had && r.Kind != "ok" {
			return bad("ok")
		}
	}
	return nil
}

type repoProgram struct {
	Setup   []rop
	Threads [][]rop
	Bound   int
	Limit   int
	Turns   bool `json:",omitempty"`
}

func (p repoProgram) String() string {
	s := fmt.Sprint(p.Setup)
	if p.Turns {
		s = "taking turns " + s
	}
	for _, t := range p.Threads {
		s += fmt.Sprint(" || ", t)
	}
	return s
}

type rev struct {
	op        rop
	res       rres
	call, ret int64
}

func linRepo(start rstate, h []rev, final string) bool {
	used := make([]bool, len(h))
	var rec func(s rstate, left int) bool
	rec = func(s rstate, left int) bool {
		if left == 0 {
			return s.list() == final
		}
		minRet := int64(1) << 62
		for i := range h {
			if !used[i] && h[i].ret < minRet {
				minRet = h[i].ret
			}
		}
		for i := range h {
			if used[i] || h[i].call > minRet {
				continue
			}
			c := s.clone()
			if c.step(h[i].op, h[i].res) != nil {
				continue
			}
			used[i] = true
			if rec(c, left-1) {
				return true
			}
			used[i] = false
		}
		return false
	}
	return rec(start, len(h))
}

func repoBuild(p repoProgram) *program {
	pr := &program{name: p.String(), data: p, bound: p.Bound - 1, limit: p.Limit, turns: p.Turns}
	pr.fresh = func() ([]func(*sched.Task), func() (string, []byte)) {
		repo := server.NewRepositoryInMemory(nil)
		start := rstate{}
		for _, o := range p.Setup {
			start.step(o, rexec(repo, o))
		}
		evs := make([][]rev, len(p.Threads))
		var bodies []func(*sched.Task)
		for i := range p.Threads {
			bodies = append(bodies, func(t *sched.Task) {
				var l []rev
				for k, o := range p.Threads[i] {
					if k > 0 {
						t.Point()
					}
					e := rev{op: o, call: t.Tick()}
					e.res = rexec(repo, o)
					e.ret = t.Tick()
					l = append(l, e)
				}
				evs[i] = l
			})
		}
		return bodies, func() (string, []byte) {
			var all []rev
			for _, e := range evs {
				all = append(all, e...)
			}
			final := rlist(repo)
			var hist []byte
			for i, e := range evs {
				for _, x := range e {
					hist = append(hist, byte(i), byte(x.call), byte(x.ret))
					hist = append(append(hist, x.res.Kind...), x.res.S...)
				}
			}
			hist = append(append(hist, '|'), final...)
			if linRepo(start, all, final) {
				return "", hist
			}
			s := "no sequential order explains: "
			for i, e := range evs {
				for _, x := range e {
					s += fmt.Sprintf("T%d[%d,%d] %s -> %s; ", i, x.call, x.ret, x.op, x.res)
				}
			}
			return s + "final " + final, hist
		}
	}
	return pr
}

// clip shortens a long text, keeping both ends.
func clip(s string) string {
	if len(s) <= 2000 {
		return s
	}
	return s[:1000] + " ... " + s[len(s)-1000:]
}

// runSeq executes a sequence on a fresh repository against the specification. After every step the whole content is compared too.
func runSeq(seq []rop) (err error) {
	if !solo(func() { err = runSeqIn(seq) }) {
		return fmt.Errorf("%v: a call never returns", seq)
	}
	return err
}

func runSeqIn(seq []rop) error {
	repo := server.NewRepositoryInMemory(nil)
	s := rstate{}
	for i, o := range seq {
		if o.Fn == "crowd" {
			if err := rcrowd(repo, s, o); err != nil {
				return fmt.Errorf("%s: %s", o, clip(err.Error()))
			}
			continue
		}
		res := rexec(repo, o)
		if err := s.step(o, res); err != nil {
			return fmt.Errorf("%s step %d: %s", clip(fmt.Sprint(seq[:i+1])), i+1, clip(err.Error()))
		}
	}
	if l := rexec(repo, rop{Fn: "list"}); l.S != s.list() || l.Kind != "list" {
		return fmt.Errorf("after %s the repository holds %s, want %s", clip(fmt.Sprint(seq)), clip(l.S), clip(s.list()))
	}
	return nil
}

// rcrowdTime is what a crowd may take: a repository whose calls take longer the more it holds gets a smaller crowd.
const rcrowdTime = 45 * time.Second

var rcrowdCut atomic.Bool

// rcrowd stores o.Key machines, finds them, deletes every third and finds them again: so many that the keys of two of them agree in
// any 32 bits of a digest of the key.
func rcrowd(repo server.Repository, s rstate, o rop) (err error) {
	n, err := strconv.Atoi(o.Key)
	if err != nil {
		return err
	}
	keys := make([]string, n)
	for i := range keys {
		d := sha256.Sum256([]byte(strconv.Itoa(i)))
		keys[i] = hex.EncodeToString(d[:16])
	}
	end := time.Now().Add(rcrowdTime)
	for _, fn := range []string{"store", "find", "delete", "find"} {
		for i, k := range keys {
			if fn == "store" && time.Now().After(end.Add(-rcrowdTime/3)) {
				// the rest of the time is for those there are
				rcrowdCut.Store(true)
				keys = keys[:i]
				break
			}
			if time.Now().After(end) {
				rcrowdCut.Store(true)
				return nil
			}
			if fn == "delete" && i%3 != 0 {
				continue
			}
			x := rop{fn, k, ""}
			if fn == "store" {
				x.Tag = o.Tag
			}
			if err := s.step(x, rexec(repo, x)); err != nil {
				return fmt.Errorf("machine %d: %v", i, err)
			}
		}
	}
	return nil
}

func replayRepoSeq(_ *core.Run, data json.RawMessage) error {
	var s []rop
	if err := json.Unmarshal(data, &s); err != nil {
		return err
	}
	return runSeq(s)
}

func runC29(r *core.Run) {
	r.Rule(schedRule + "; a sequential case is one complete sequence of repository calls, compared with a map after every call")
	alpha := []rop{{"store", "a", "1"}, {"store", "a", "2"}, {"store", "b", "1"}, {"store", "", "3"}, {"storenil", "", ""}, {"find", "a", ""},
		{"find", "b", ""}, {"find", "", ""}, {"find", "A", ""}, {"delete", "a", ""}, {"delete", "b", ""}, {"delete", "", ""}, {"list", "", ""}}
	depth := 4
	if r.Thorough {
		depth = 5
	}
	// all sequences; the first call is shared out over the shards
	states := map[string]bool{}
	var n, steps int64
	var rec func(seq []rop)
	rec = func(seq []rop) {
		if r.Stopped() {
			return
		}
		if len(seq) == 2 {
			h := core.Hash([]byte(fmt.Sprint(seq)))
			if int(h%uint64(r.ShardN)) != r.ShardI {
				return
			}
		}
		if len(seq) >= 2 {
			n++
			steps += int64(len(seq))
			r.Busy(0, "sequence", "repository calls", seq)
			if err := runSeq(seq); err != nil {
				r.Violate("sequence", "seq:"+fmt.Sprint(seq), err.Error(), seq)
				return
			}
			s := rstate{}
			for _, o := range seq {
				switch o.Fn {
				case "store":
					if _, ok := s[o.Key]; !ok {
						s[o.Key] = o.Tag
					}
				case "delete":
					delete(s, o.Key)
				}
			}
			states[s.list()] = true
		}
		if len(seq) == depth {
			return
		}
		for _, o := range alpha {
			rec(append(seq[:len(seq):len(seq)], o))
		}
	}
	rec(nil)
	r.Eval(n)
	r.DistinctN(n)
	r.Count("sequential_calls", steps)
	r.Set("map_contents_reached", len(states))
	// a large map, filled and emptied
	if r.ShardI == 0 {
		n := 5000
		if r.Thorough {
			n = 70000
		}
		var seq []rop
		for i := 0; i < n; i++ {
			seq = append(seq, rop{"store", fmt.Sprintf("k%d", i), "1"})
			if i&(i+1) == 0 || i == 999 || i == 9999 {
				seq = append(seq, rop{Fn: "list"})
			}
		}
		seq = append(seq, rop{Fn: "list"})
		for i := 0; i < n; i += 2 {
			seq = append(seq, rop{"delete", fmt.Sprintf("k%d", i), ""}, rop{"find", fmt.Sprintf("k%d", i), ""}, rop{"find", fmt.Sprintf("k%d", i+1), ""})
		}
		seq = append(seq, rop{Fn: "list"})
		if err := runSeq(seq); err != nil {
			r.Violate("sequence", "seq:large", err.Error(), seq)
		}
	}
	// more keys than any 32-bit digest tells apart
	if r.ShardI == 1%r.ShardN {
		seq := []rop{{"crowd", "300000", "1"}}
		if r.Thorough {
			seq[0].Key = "600000"
		}
		r.Busy(0, "sequence", "repository calls", seq)
		if err := runSeq(seq); err != nil {
			r.Violate("sequence", "seq:crowd", err.Error(), seq)
		}
		if rcrowdCut.Load() {
			r.Partial("the large population takes too long")
		}
	}
	// a long life: machines come and go, some stay
	if r.ShardI == 3%r.ShardN {
		n := 30000
		if r.Thorough {
			n = 300000
		}
		seq := []rop{{"store", "stay", "1"}, {"store", "", "1"}}
		for i := 0; i < n; i++ {
			k := fmt.Sprintf("k%d", i%7)
			if i%3 == 0 {
				k = fmt.Sprintf("n%d", i)
			}
			seq = append(seq, rop{"store", k, "1"}, rop{"store", k, "2"}, rop{"find", k, ""}, rop{"delete", k, ""}, rop{"find", k, ""})
			if i%50 == 0 {
				seq = append(seq, rop{"find", "stay", ""}, rop{Fn: "list"}, rop{"delete", "none", ""}, rop{Fn: "storenil"})
			}
		}
		r.Busy(0, "sequence", "repository calls", nil)
		r.Eval(1)
		r.DistinctN(1)
		r.Set("longest_sequence", len(seq))
		if err := runSeq(seq); err != nil {
			r.Violate("sequence", "seq:long", err.Error(), seq)
		}
	}
	// sizes that the constants of the code suggest
	if r.ShardI == 2%r.ShardN {
		top := 5000
		if r.Thorough {
			top = 20000
		}
		for _, n := range core.Lit().Sizes(top) {
			var seq []rop
			for i := 0; i < n; i++ {
				seq = append(seq, rop{"store", fmt.Sprintf("k%d", i), "1"})
			}
			seq = append(seq, rop{Fn: "list"}, rop{"store", "more", "1"}, rop{"find", "more", ""}, rop{"find", "k0", ""}, rop{"store", "k0", "2"}, rop{"delete", "more", ""}, rop{"find", "more", ""}, rop{"delete", "k1", ""}, rop{Fn: "list"})
			r.Busy(0, "sequence", "repository calls", nil)
			r.Eval(1)
			r.DistinctN(1)
			r.Count("sizes_suggested_by_constants", 1)
			if err := runSeq(seq); err != nil {
				r.Violate("sequence", fmt.Sprintf("seq:size:%d", n), err.Error(), seq)
			}
		}
	}
	// keys that are easily taken for one another
	if r.ShardI == 1%r.ShardN {
		for _, k := range []string{"a", "Ab", "6ac292faa1315b4d858ab3a3d7d5933a"} {
			near := model.NearNames(k)
			for _, s := range core.Lit().Strings { // and the constants of the code
				near = append(near, s, s+k, k+s)
			}
			for _, x := range near {
				if x == k {
					continue
				}
				for _, p := range [][2]string{{k, x}, {x, k}} {
					a, b := p[0], p[1]
					for _, seq := range [][]rop{
						{{"store", a, "1"}, {"find", b, ""}, {"delete", b, ""}, {"find", a, ""}},
						{{"store", a, "1"}, {"store", b, "2"}, {"find", a, ""}, {"find", b, ""}, {"store", a, "3"}, {"store", b, "3"}, {"list", "", ""}, {"delete", a, ""}, {"find", a, ""}, {"find", b, ""}, {"store", a, "4"}, {"delete", b, ""}, {"find", b, ""}, {"find", a, ""}},
					} {
						r.Busy(0, "sequence", "repository calls", seq)
						r.Eval(1)
						r.DistinctN(1)
						r.Count("near_key_sequences", 1)
						if err := runSeq(seq); err != nil {
							r.Violate("sequence", "seq:"+fmt.Sprint(seq), err.Error(), seq)
						}
					}
				}
			}
		}
	}
	lim := 50000
	if r.Thorough {
		lim = 5000000
	}
	conc := []rop{{"store", "a", "1"}, {"store", "a", "2"}, {"find", "a", ""}, {"delete", "a", ""}, {"list", "", ""}, {"store", "b", "1"}}
	seqs := func(al []rop, k int) [][]rop {
		out := [][]rop{nil}
		for i := 0; i < k; i++ {
			var nx [][]rop
			for _, s := range out {
				for _, o := range al {
					nx = append(nx, append(append([]rop{}, s...), o))
				}
			}
			out = nx
		}
		return out
	}
	shardRun(r, func(emit func(*program)) {
		combos := func(setup []rop, al [][]rop, k, bound int) {
			multisets(len(al), k, func(c []int) {
				p := repoProgram{Setup: setup, Bound: bound, Limit: lim}
				for _, x := range c {
					p.Threads = append(p.Threads, al[x])
				}
				emit(repoBuild(p))
			})
		}
		for _, setup := range [][]rop{nil, {conc[0]}, {conc[0], conc[5]}} {
			combos(setup, seqs(alpha, 1), 2, 0)
			combos(setup, seqs(conc, 1), 3, 0)
			combos(setup, seqs(conc, 2), 2, 0)
		}
		// different keys, and maps that hold a number of machines already
		var keys []rop
		for _, k := range []string{"a", "b", "c", "0", "1", "ff", "6ac292faa1315b4d858ab3a3d7d5933a", "6ac292faa1315b4d858ab3a3d7d5933b", ""} {
			keys = append(keys, rop{"store", k, "1"}, rop{"find", k, ""}, rop{"delete", k, ""})
		}
		combos(nil, seqs(keys, 1), 2, 0)
		for _, n := range []int{20, 70, 300} {
			var fill []rop
			for i := 0; i < n; i++ {
				fill = append(fill, rop{"store", fmt.Sprintf("k%d", i), "1"})
			}
			al := seqs([]rop{{"store", "new", "1"}, {"store", "k3", "2"}, {"find", "k3", ""}, {"delete", "k3", ""}, {"delete", fmt.Sprintf("k%d", n-1), ""}, {"list", "", ""}}, 1)
			al = append(al, []rop{{"delete", "k0", ""}, {"store", "k0", "9"}}, []rop{{"store", "x1", "1"}, {"store", "x2", "2"}}, []rop{{"delete", "k3", ""}, {"delete", fmt.Sprintf("k%d", n-2), ""}})
			combos(fill, al, 2, 3)
		}
		// many threads, all of them begun before the first ends
		for k := 4; k <= 6; k++ {
			multisets(len(conc), k, func(c []int) {
				p := repoProgram{Bound: pickN(r, 3, 2), Limit: lim, Turns: true}
				for _, x := range c {
					p.Threads = append(p.Threads, []rop{conc[x]})
				}
				emit(repoBuild(p))
			})
		}
		combos(nil, seqs(conc[:5], 1), 4, 3)
		combos(nil, seqs([]rop{conc[0], conc[1], conc[3]}, 2), 3, 3)
		if r.Thorough {
			combos(nil, seqs(conc, 2), 3, 0)
			combos([]rop{conc[0]}, seqs(conc[:5], 1), 4, 0)
			combos(nil, seqs(conc[:5], 3), 2, 0)
		}
	})
}
