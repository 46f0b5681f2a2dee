// Package core is the frame every check runs in: parallel exhaustive enumeration, counting, violations with replay
// files, evidence, a watchdog for hanging calls and a supervisor for crashing ones.
package core

import (
	"encoding/json"
	"fmt"
	"os"
	"path/filepath"
	"runtime"
	"runtime/debug"
	"sort"
	"sync"
	"sync/atomic"
	"time"
)

// Check is one registered check.
type Check struct {
	ID     string
	Level  string // exploration or model_checking
	Race   bool   // lives in the race-detector binary
	Assume []string
	Run    func(*Run)
	Shard  func(*Run)                                          // if set, Run is not: the check runs as Shards processes, each on its part of the programs
	Replay map[string]func(r *Run, data json.RawMessage) error // kind -> re-execution; non-nil error = still violated
}

var Checks = map[string]*Check{}

// Sub holds hidden subcommands of the binaries.
var Sub = map[string]func(args []string) int{}

func Register(c *Check) {
	if Checks[c.ID] != nil {
		panic("duplicate check " + c.ID)
	}
	Checks[c.ID] = c
}

// Violation is one found breach.
type Violation struct {
	Property string          `json:"property"`
	Kind     string          `json:"kind"` // which replayer
	What     string          `json:"what"`
	Data     json.RawMessage `json:"data"`
	Key      string          `json:"key"` // identity used by the known-findings file
}

// Run is one execution of a check.
type Run struct {
	Check    *Check
	Tier     string
	Seed     int64
	Thorough bool
	OutDir   string
	Start    time.Time
	Deadline time.Time
	Workers  int

	ShardI, ShardN int
	distinctExtra  int64

	evals    atomic.Int64
	stop     atomic.Bool
	mu       sync.Mutex
	viol     []Violation
	samples  []any
	cov      map[string]any
	counts   map[string]int64
	rule     string
	partial  []string
	outcomes map[string]int64
	distinct *HashSet
	slots    []slot
	watchers sync.Once
}

type slot struct {
	mu    sync.Mutex
	since time.Time
	kind  string
	data  any
	what  string
}

const MaxViolations = 3

func (r *Run) Stopped() bool {
	if r.stop.Load() {
		return true
	}
	if time.Now().After(r.Deadline) {
		r.Partial("deadline reached")
		r.stop.Store(true)
		return true
	}
	return false
}

// Partial records that a part of the space was not covered.
func (r *Run) Partial(why string) {
	r.mu.Lock()
	defer r.mu.Unlock()
	for _, p := range r.partial {
		if p == why {
			return
		}
	}
	r.partial = append(r.partial, why)
}

// Violate records a violation.
func (r *Run) Violate(kind, key, what string, data any) {
	b, err := json.Marshal(data)
	if err != nil {
		panic(err)
	}
	if len(what) > 8000 {
		what = what[:4000] + " ... " + what[len(what)-4000:]
	}
	r.mu.Lock()
	defer r.mu.Unlock()
	for _, v := range r.viol {
		if v.Key == key && v.What == what {
			return
		}
	}
	if len(r.viol) < 50 {
		r.viol = append(r.viol, Violation{Property: r.Check.ID, Kind: kind, What: what, Data: b, Key: key})
	}
	if len(r.viol) >= MaxViolations {
		r.stop.Store(true)
	}
}

// Violations found so far.
func (r *Run) Violations() int {
	r.mu.Lock()
	defer r.mu.Unlock()
	return len(r.viol)
}

// Eval counts n evaluated cases.
func (r *Run) Eval(n int64)  { r.evals.Add(n) }
func (r *Run) Evals() int64  { return r.evals.Load() }
func (r *Run) Rule(s string) { r.mu.Lock(); r.rule = s; r.mu.Unlock() }

// Distinct marks a case as seen; true if new.
func (r *Run) Distinct(h uint64) bool { return r.distinct.Add(h) }

// DistinctN counts n cases that are distinct by construction and were not added to the hash set.
func (r *Run) DistinctN(n int64) { r.mu.Lock(); r.distinctExtra += n; r.mu.Unlock() }

// Count adds to a named coverage counter.
func (r *Run) Count(name string, n int64) {
	r.mu.Lock()
	r.counts[name] += n
	r.mu.Unlock()
}

// Counted reads a named coverage counter.
func (r *Run) Counted(name string) int64 {
	r.mu.Lock()
	defer r.mu.Unlock()
	return r.counts[name]
}

// Outcome counts a named outcome class.
func (r *Run) Outcome(name string) {
	r.mu.Lock()
	r.outcomes[name]++
	r.mu.Unlock()
}
func (r *Run) Outcomes(m map[string]int64) {
	r.mu.Lock()
	for k, v := range m {
		r.outcomes[k] += v
	}
	r.mu.Unlock()
}

// Sample keeps a few written-out cases.
func (r *Run) Sample(s any) {
	r.mu.Lock()
	if len(r.samples) < 12 {
		r.samples = append(r.samples, s)
	}
	r.mu.Unlock()
}

// Set records a coverage entry.
func (r *Run) Set(k string, v any) {
	r.mu.Lock()
	r.cov[k] = v
	r.mu.Unlock()
}

// Busy/Idle publish what a worker is executing, for the watchdog.
func (r *Run) Busy(w int, kind, what string, data any) {
	s := &r.slots[w]
	s.mu.Lock()
	s.since, s.kind, s.what, s.data = time.Now(), kind, what, data
	s.mu.Unlock()
}
func (r *Run) Idle(w int) {
	s := &r.slots[w]
	s.mu.Lock()
	s.kind = ""
	s.data = nil
	s.mu.Unlock()
}

// HangLimit is how long one case may take before it is reported for confirmation.
var HangLimit = 90 * time.Second

func (r *Run) watchdog() {
	for {
		time.Sleep(2 * time.Second)
		for i := range r.slots {
			s := &r.slots[i]
			s.mu.Lock()
			if s.kind != "" && time.Since(s.since) > HangLimit {
				b, _ := json.Marshal(s.data)
				v := Violation{Property: r.Check.ID, Kind: s.kind, What: "did not return: " + s.what, Data: b, Key: "hang:" + s.what}
				out, _ := json.Marshal(v)
				os.WriteFile(filepath.Join(r.OutDir, r.Check.ID+".hang.json"), out, 0o644)
				fmt.Fprintln(os.Stderr, "harness: case hangs:", s.what)
				os.Exit(ExitHang)
			}
			s.mu.Unlock()
		}
	}
}

// child exit codes
const (
	ExitOK   = 0
	ExitViol = 1
	ExitHang = 71
)

// Guard runs f and turns a panic in harness or code under test into a violation of the given kind.
func (r *Run) Guard(kind, what string, data any, f func()) (panicked bool) {
	defer func() {
		if p := recover(); p != nil {
			panicked = true
			st := string(debug.Stack())
			if len(st) > 2500 {
				st = st[:2500]
			}
			r.Violate(kind, "panic:"+what, fmt.Sprintf("%s: panic: %v\n%s", what, p, st), data)
		}
	}()
	f()
	return false
}

// Parallel runs f for every i in [0,n) on all workers.
func (r *Run) Parallel(n int, f func(w, i int)) {
	var next atomic.Int64
	var wg sync.WaitGroup
	for w := 0; w < r.Workers; w++ {
		wg.Add(1)
		go func(w int) {
			defer wg.Done()
			defer r.Idle(w)
			for {
				i := int(next.Add(1)) - 1
				if i >= n || r.Stopped() {
					return
				}
				f(w, i)
			}
		}(w)
	}
	wg.Wait()
}

// Feed runs gen on this goroutine, which emits items, and handles them on all workers in batches.
func Feed[T any](r *Run, gen func(emit func(T) bool), handle func(w int, it T)) {
	const batch = 64
	ch := make(chan []T, r.Workers*4)
	var wg sync.WaitGroup
	for w := 0; w < r.Workers; w++ {
		wg.Add(1)
		go func(w int) {
			defer wg.Done()
			defer r.Idle(w)
			for b := range ch {
				for _, it := range b {
					if r.stop.Load() {
						break
					}
					handle(w, it)
				}
				r.Stopped()
			}
		}(w)
	}
	var cur []T
	gen(func(it T) bool {
		if r.stop.Load() {
			return false
		}
		cur = append(cur, it)
		if len(cur) == batch {
			ch <- cur
			cur = nil
		}
		return true
	})
	if len(cur) > 0 {
		ch <- cur
	}
	close(ch)
	wg.Wait()
}

// HashSet is a sharded concurrent set of 64-bit hashes.
type HashSet struct {
	sh [256]struct {
		mu sync.Mutex
		m  map[uint64]struct{}
	}
}

func NewHashSet() *HashSet {
	h := &HashSet{}
	for i := range h.sh {
		h.sh[i].m = map[uint64]struct{}{}
	}
	return h
}
func (h *HashSet) Add(x uint64) bool {
	s := &h.sh[x>>56]
	s.mu.Lock()
	_, had := s.m[x]
	if !had {
		s.m[x] = struct{}{}
	}
	s.mu.Unlock()
	return !had
}
func (h *HashSet) Len() int64 {
	var n int64
	for i := range h.sh {
		h.sh[i].mu.Lock()
		n += int64(len(h.sh[i].m))
		h.sh[i].mu.Unlock()
	}
	return n
}

// Hash is FNV-1a with a final mix.
func Hash(b ...[]byte) uint64 {
	h := uint64(14695981039346656037)
	for _, x := range b {
		for _, c := range x {
			h = (h ^ uint64(c)) * 1099511628211
		}
		h = (h ^ 0xFF51) * 1099511628211
		h = (h ^ uint64(len(x))) * 1099511628211
	}
	h ^= h >> 33
	h *= 0xff51afd7ed558ccd
	h ^= h >> 33
	return h
}

func newRun(c *Check, tier string, seed int64, out string, workers int) *Run {
	r := &Run{Check: c, Tier: tier, Seed: seed, Thorough: tier == "thorough", OutDir: out, Start: time.Now(), Workers: workers,
		cov: map[string]any{}, counts: map[string]int64{}, outcomes: map[string]int64{}, distinct: NewHashSet()}
	lim := 500 * time.Second
	if r.Thorough {
		lim = 3 * time.Hour
		if v := os.Getenv("VERIF_LIMIT"); v != "" {
			if d, err := time.ParseDuration(v); err == nil {
				lim = d
			}
		}
	}
	r.Deadline = r.Start.Add(lim)
	r.slots = make([]slot, workers+16)
	return r
}

// Child runs the check in this process and writes its evidence.
func Child(c *Check, tier string, seed int64, out string, workers int) int {
	debug.SetGCPercent(400)
	debug.SetMemoryLimit(12 << 30)
	r := newRun(c, tier, seed, out, workers)
	if c.Shard != nil {
		runShards(r)
	} else {
		go r.watchdog()
		c.Run(r)
	}
	return r.finish()
}

func (r *Run) finish() int {
	r.mu.Lock()
	defer r.mu.Unlock()
	cov := map[string]any{}
	for k, v := range r.cov {
		cov[k] = v
	}
	for k, v := range r.counts {
		cov[k] = v
	}
	if len(r.outcomes) > 0 {
		cov["outcomes"] = r.outcomes
		cov["distinct_outcomes"] = len(r.outcomes)
	}
	cov["evaluations"] = r.evals.Load()
	if n := r.distinct.Len() + r.distinctExtra; n > 0 || r.Check.Level == "exploration" {
		cov["distinct_nontrivial"] = n
	}
	if r.rule != "" {
		cov["rule"] = r.rule
	}
	cov["samples"] = r.samples
	cov["exhaustive"] = len(r.partial) == 0 && len(r.viol) == 0
	if len(r.partial) > 0 {
		sort.Strings(r.partial)
		cov["not_covered"] = r.partial
	}
	ev := map[string]any{"property": r.Check.ID, "tier": r.Tier, "seed": r.Seed, "level": r.Check.Level, "coverage": cov,
		"wall_s": time.Since(r.Start).Seconds(), "violations": len(r.viol), "assumptions": append([]string{
			"the Go standard library's single-block DES and AES, SHA-256 and the Go toolchain are correct",
			"argument byte contents outside the enumerated neighbourhoods behave like those inside"}, r.Check.Assume...)}
	b, err := json.MarshalIndent(ev, "", " ")
	if err != nil {
		fmt.Fprintln(os.Stderr, "harness: evidence:", err)
		return 2
	}
	if err := os.WriteFile(filepath.Join(r.OutDir, r.Check.ID+".evidence.json"), b, 0o644); err != nil {
		fmt.Fprintln(os.Stderr, "harness:", err)
		return 2
	}
	vb, _ := json.Marshal(r.viol)
	if err := os.WriteFile(filepath.Join(r.OutDir, r.Check.ID+".viol.json"), vb, 0o644); err != nil {
		fmt.Fprintln(os.Stderr, "harness:", err)
		return 2
	}
	fmt.Printf("%s: %d evaluations, %d distinct, %d violation(s), %.1fs", r.Check.ID, r.evals.Load(), r.distinct.Len()+r.distinctExtra, len(r.viol), time.Since(r.Start).Seconds())
	for _, k := range []string{"states", "transitions", "schedules", "traces_validated_against_impl"} {
		if v, ok := cov[k]; ok {
			fmt.Printf(", %s=%v", k, v)
		}
	}
	if len(r.partial) > 0 {
		fmt.Printf(", partial: %v", r.partial)
	}
	fmt.Println()
	if len(r.viol) > 0 {
		return ExitViol
	}
	return ExitOK
}

// DefaultWorkers is the number of parallel workers.
func DefaultWorkers() int {
	n := runtime.NumCPU()
	if n > 8 {
		n = 8
	}
	if n < 1 {
		n = 1
	}
	return n
}
