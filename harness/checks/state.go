package checks

import (
	"bytes"
	"encoding/json"
	"fmt"
	"os"
	"os/exec"
	"strconv"
	"sync"

	"verif.local/h/calls"
	"verif.local/h/core"
)

func init() {
	core.Register(&core.Check{ID: "C17", Level: "exploration", Shard: runC17,
		Replay: map[string]func(*core.Run, json.RawMessage) error{"sequence": replaySeq, "shape": replayShape}})
	core.Sub["first"] = subFirst
}

const seqSeed = 7
const seqFill = 0x3A

// sc is one call of a sequence: an element of the alphabet under a variant of the argument contents.
type sc struct{ I, V int }

type answer struct {
	B  []byte
	S  []byte // a JSON string would not keep bytes that are not UTF-8
	N  uint64
	OK bool
	P  bool
}

func answerOf(r calls.Result) answer {
	return answer{B: cp(r.B), S: []byte(r.S), N: r.N, OK: r.OK, P: r.Panic != ""}
}

func (a answer) eq(r *calls.Result) bool {
	return bytes.Equal(a.B, r.B) && string(a.S) == r.S && a.N == r.N && a.OK == r.OK && a.P == (r.Panic != "")
}

// seqEnv is the memory all calls of all sequences share.
type seqEnv struct {
	b     *calls.Bufs
	alpha [calls.Variants][]calls.Call
	first [calls.Variants][]answer
	cur   int
}

func newSeqEnv() *seqEnv {
	e := &seqEnv{b: calls.NewBufs(seqSeed), cur: -1}
	for v := range e.alpha {
		e.alpha[v] = e.b.Alphabet(v)
	}
	Fill.v.Store(seqFill)
	return e
}

// subFirst answers calls for the first time in the life of this process: vmc first <variant> <index>.
func subFirst(args []string) int {
	v, _ := strconv.Atoi(args[0])
	i, _ := strconv.Atoi(args[1])
	e := newSeqEnv()
	e.b.Apply(v)
	r := calls.Exec(&e.alpha[v][i])
	b, err := json.Marshal(answerOf(r))
	if err != nil {
		return 2
	}
	os.Stdout.Write(b)
	return 0
}

// firstUse fills in the answers every call gives on first use, each obtained in a process of its own.
func (e *seqEnv) firstUse(workers int) error {
	type job struct{ v, i int }
	jobs := make(chan job)
	var wg sync.WaitGroup
	var mu sync.Mutex
	var failed error
	for v := range e.first {
		e.first[v] = make([]answer, len(e.alpha[v]))
	}
	for w := 0; w < workers; w++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			for j := range jobs {
				out, err := exec.Command(os.Args[0], "first", strconv.Itoa(j.v), strconv.Itoa(j.i)).Output()
				var a answer
				if err == nil {
					err = json.Unmarshal(out, &a)
				}
				if err != nil {
					mu.Lock()
					failed = fmt.Errorf("first use of %s: %v", e.alpha[j.v][j.i], err)
					mu.Unlock()
				}
				e.first[j.v][j.i] = a
			}
		}()
	}
	for v := range e.alpha {
		for i := range e.alpha[v] {
			jobs <- job{v, i}
		}
	}
	close(jobs)
	wg.Wait()
	return failed
}

// run executes a sequence; every call is compared with its answer on first use.
func (e *seqEnv) run(seq []sc) error {
	var held [8]calls.Result
	var kept [8][]byte
	for k, c := range seq {
		if e.cur != c.V {
			e.b.Apply(c.V)
			e.cur = c.V
		}
		call := e.alpha[c.V][c.I]
		res := calls.Exec(&call)
		if off, bad := e.b.Changed(); bad {
			e.cur = -1
			return fmt.Errorf("call %d, %s, wrote into the %s", k+1, call, e.b.Region(off))
		}
		if !e.first[c.V][c.I].eq(&res) {
			return fmt.Errorf("call %d, %s, answered %s; on first use %+v", k+1, call, res, e.first[c.V][c.I])
		}
		for j := 0; j < k && j < len(held); j++ {
			if !bytes.Equal(held[j].B, kept[j]) {
				return fmt.Errorf("call %d, %s, changed the result of call %d from %x to %x", k+1, call, j+1, kept[j], held[j].B)
			}
		}
		if len(res.B) > 0 {
			if e.b.Overlaps(res.B) {
				return fmt.Errorf("the result of call %d, %s, shares memory with an argument", k+1, call)
			}
			for j := 0; j < k && j < len(held); j++ {
				if calls.Overlap(held[j].B, res.B) && len(held[j].B) > 0 {
					return fmt.Errorf("the result of call %d, %s, shares memory with the result of call %d", k+1, call, j+1)
				}
			}
		}
		if k < len(held) {
			held[k], kept[k] = res, cp(res.B)
		}
		// a client may do what it wants with a result
		if k == len(seq)-1 {
			for i := range res.B {
				res.B[i] ^= 0xA5
			}
		}
	}
	return nil
}

type seqCase struct {
	Seq            []sc
	Calls          []string
	Index          int64 // position in the enumeration of the shard
	ShardI, ShardN int
	Thorough       bool
}

func describe(e *seqEnv, seq []sc) (o []string) {
	for _, c := range seq {
		o = append(o, fmt.Sprintf("%s (contents %d)", e.alpha[c.V][c.I].Fn, c.V))
	}
	return
}

func replaySeq(_ *core.Run, data json.RawMessage) error {
	var c seqCase
	if err := json.Unmarshal(data, &c); err != nil {
		return err
	}
	e := newSeqEnv()
	if err := e.firstUse(8); err != nil {
		return err
	}
	if err := e.run(c.Seq); err != nil {
		return err
	}
	// not from a fresh process: replay the whole history of that shard
	var found error
	enumSeqs(e, c.ShardI, c.ShardN, c.Thorough, func(seq []sc, idx int64) bool {
		if idx > c.Index {
			return false
		}
		found = e.run(seq)
		return found == nil
	})
	return found
}

// enumSeqs emits the sequences of one shard.
func enumSeqs(e *seqEnv, shard, n int, thorough bool, f func(seq []sc, idx int64) bool) {
	var idx int64
	product := func(alpha []sc, depth int) bool {
		seq := make([]sc, depth)
		var rec func(k, h int) bool
		rec = func(k, h int) bool {
			if k == 2 || k == depth {
				if k <= 2 && h%n != shard {
					return true
				}
			}
			if k == depth {
				idx++
				return f(seq, idx)
			}
			for i, c := range alpha {
				seq[k] = c
				if !rec(k+1, h*31+i) {
					return false
				}
			}
			return true
		}
		return rec(0, 0)
	}
	all := len(e.alpha[0])
	var full, core0, coreV, v0 []sc
	for v := 0; v < calls.Variants; v++ {
		for i := 0; i < all; i++ {
			full = append(full, sc{i, v})
			if v == 0 {
				v0 = append(v0, sc{i, v})
			}
			if i < calls.NCore {
				if v == 0 {
					core0 = append(core0, sc{i, v})
				}
				if v == 0 || v == 2 || v == 3 {
					coreV = append(coreV, sc{i, v})
				}
			}
		}
	}
	if !product(full, 2) || !product(v0, 3) || !product(coreV, 3) {
		return
	}
	if thorough {
		if !product(full, 3) {
			return
		}
		product(core0, 5)
	}
}

func runC17(r *core.Run) {
	r.Rule("a case is one complete sequence of library calls on one set of shared argument slices (guard bytes behind every slice), compared call by call " +
		"with the answers the same calls give as the first call of a fresh process, or one argument shape (function, lengths, counter) called twice in an ascending and " +
		"a descending enumeration of all shapes, which must answer alike; sequences are the complete products of the alphabet up to the depth; " +
		"distinct by construction")
	Fill.v.Store(seqFill)
	runShapes(r)
	e := newSeqEnv()
	if err := e.firstUse(2); err != nil {
		fmt.Fprintln(os.Stderr, "harness:", err)
		os.Exit(2)
	}
	r.Set("alphabet", len(e.alpha[0]))
	r.Set("content_variants", calls.Variants)
	var cn, sn int64
	enumSeqs(e, r.ShardI, r.ShardN, r.Thorough, func(seq []sc, idx int64) bool {
		if idx&255 == 0 {
			r.Busy(0, "sequence", "sequence of library calls", seqCase{Seq: append([]sc{}, seq...)})
			if r.Stopped() {
				return false
			}
		}
		if idx%40009 == 5 {
			r.Sample(describe(e, seq))
		}
		sn++
		cn += int64(len(seq))
		if err := e.run(seq); err != nil {
			s := append([]sc{}, seq...)
			r.Violate("sequence", fmt.Sprint("seq:", describe(e, s)), fmt.Sprintf("%v: %v", describe(e, s), err),
				seqCase{Seq: s, Calls: describe(e, s), Index: idx, ShardI: r.ShardI, ShardN: r.ShardN, Thorough: r.Thorough})
			return r.Violations() < 2
		}
		return true
	})
	r.Eval(sn)
	r.DistinctN(sn)
	r.Count("calls", cn)
}
