// Package racechecks holds the checks that explore interleavings (race-detector binary built with the overlay).
package racechecks

import (
	"crypto/rand"
	"encoding/json"
	"fmt"
	"os"
	"strings"
	"time"

	"verif.local/h/core"
	"verif.local/h/sched"
)

// the environment answers every request for randomness with the same bytes, so that results can be compared
type constReader byte

func (c constReader) Read(p []byte) (int, error) {
	for i := range p {
		p[i] = byte(c)
	}
	return len(p), nil
}

func init() { rand.Reader = constReader(0x3A) }

// raceMark remembers how many data races were reported so far.
type raceMark struct {
	n   int
	off int64
}

func mark() raceMark {
	m := raceMark{n: sched.RaceErrors()}
	if st, err := os.Stat(core.RaceLog()); err == nil {
		m.off = st.Size()
	}
	return m
}

// races returns the reports since the mark that involve the code under test.
func (m raceMark) races() string {
	if sched.RaceErrors() == m.n {
		return ""
	}
	b, err := os.ReadFile(core.RaceLog())
	if err != nil || int64(len(b)) < m.off {
		return "data race (report not available)"
	}
	var out []string
	for _, rep := range strings.Split(string(b[m.off:]), "==================") {
		if strings.Contains(rep, "WARNING: DATA RACE") && strings.Contains(rep, "moov-io/dukpt") {
			out = append(out, strings.TrimSpace(rep))
		}
	}
	s := strings.Join(out, "\n")
	if len(s) > 3000 {
		s = s[:3000]
	}
	return s
}

// solo runs f as the only controlled task; false if it blocks for ever.
func solo(f func()) bool {
	return !sched.Run([]func(*sched.Task){func(*sched.Task) { f() }}, nil).Deadlock
}

// program is something that can be run under a schedule. run gives what is wrong with the finished run, "" if nothing.
type program struct {
	name  string
	data  any
	bound int // preemption bound, negative: none
	limit int
	turns bool // the tasks take turns, and bound limits the departures from that
	// fresh builds a new instance: the bodies, and the judgement of a finished run
	fresh func() (bodies []func(*sched.Task), judge func() (what string, history []byte))
}

// runOnce executes the program under a choice prefix and judges the run.
func (p *program) runOnce(prefix []int) (res sched.Result, what string, history []byte) {
	var bodies []func(*sched.Task)
	var judge func() (string, []byte)
	if !solo(func() { bodies, judge = p.fresh() }) {
		return sched.Result{Deadlock: true}, "deadlock in the sequential setup", nil
	}
	m := mark()
	res = sched.RunAs(bodies, prefix, p.turns)
	if res.Deadlock {
		return res, fmt.Sprintf("deadlock: tasks %v never finish", res.Waiting), nil
	}
	if s := m.races(); s != "" {
		return res, "data race:\n" + s, nil
	}
	if !solo(func() { what, history = judge() }) {
		res.Deadlock = true
		return res, "deadlock: after the run a single further call never returns (a lock was left held)", nil
	}
	return
}

type schedCase struct {
	Program any
	Choice  []int
}

// shortRun is the number of scheduling decisions up to which a program is explored up to its own bound at once.
const shortRun = 16

// explore enumerates the schedules of the program with at most bound preemptions (all of them, up to the program's own
// bound, if the program is short) and reports the first violation. done: there is nothing left for a higher bound.
func (p *program) explore(r *core.Run, bound int) (done bool) {
	defer r.Idle(0)
	var points int64
	outcome := ""
	e := sched.Explore(func(n int) int {
		if n <= shortRun || p.bound >= 0 && p.bound < bound {
			return p.bound
		}
		return bound
	}, p.limit, func(prefix []int) sched.Result {
		r.Busy(0, "schedule", p.name, schedCase{Program: p.data, Choice: prefix})
		res, what, hist := p.runOnce(prefix)
		outcome = what
		r.Distinct(core.Hash([]byte(p.name), hist))
		return res
	}, func(res sched.Result, choice []int) bool {
		points += int64(len(choice))
		if r.Stopped() {
			return false
		}
		if res.Uncertain {
			r.Count("runs_with_uncontrolled_blocking", 1)
		}
		if outcome == "" {
			return true
		}
		if res.Deadlock { // once more, to be sure that nobody was just slow
			if again, _, _ := p.runOnce(choice); !again.Deadlock {
				return true
			}
		}
		kind := strings.SplitN(outcome, ":", 2)[0]
		r.Violate("schedule", kind+":"+p.name, fmt.Sprintf("%s under schedule %v: %s", p.name, choice, outcome), schedCase{Program: p.data, Choice: choice})
		return false
	})
	r.Eval(int64(e.N))
	r.Count("scheduling_decisions", points)
	if e.Cut && r.Violations() == 0 {
		r.Partial("schedules of some programs (limit reached, or blocking outside the controlled primitives)")
	}
	done = e.Cut || !e.Pruned || e.Bound == p.bound
	if done {
		r.Count("programs", 1)
		if e.Pruned {
			r.Count("programs_with_preemption_bound", 1)
		}
		if r.Counted("programs")%97 == 1 {
			r.Sample(map[string]any{"program": p.name, "schedules": e.N})
		}
	}
	return
}

// shardRun runs the programs that belong to this shard: short ones at once, the others with at most one preemption, then
// two, then all that their own bound admits, each pass over all of them as long as there is time.
func shardRun(r *core.Run, gen func(emit func(*program))) {
	i := 0
	var left []*program
	gen(func(p *program) {
		mine := i%r.ShardN == r.ShardI
		i++
		if mine && !r.Stopped() && !p.explore(r, 1) {
			left = append(left, p)
		}
	})
	for _, bound := range []int{2, 1 << 30} {
		r.Count(fmt.Sprintf("programs_beyond_%d_preemptions", min(bound, 3)-1), int64(len(left)))
		var next []*program
		for k, p := range left {
			if r.Stopped() || time.Until(r.Deadline) < r.Deadline.Sub(r.Start)/2 {
				r.Partial(fmt.Sprintf("more than %d preemptions in %d long programs of a shard (time)", min(bound, 3)-1, len(left)-k))
				return
			}
			b := bound
			if b == 1<<30 {
				b = p.bound
			}
			if !p.explore(r, b) {
				next = append(next, p)
			}
		}
		left = next
	}
}

func replaySchedule[T any](build func(T) *program) func(*core.Run, json.RawMessage) error {
	return func(_ *core.Run, data json.RawMessage) error {
		var d struct {
			Program T
			Choice  []int
		}
		if err := json.Unmarshal(data, &d); err != nil {
			return err
		}
		res, what, _ := build(d.Program).runOnce(d.Choice)
		if what != "" {
			return fmt.Errorf("schedule %v: %s", res.Trace, what)
		}
		return nil
	}
}

const schedRule = "a case is one schedule (interleaving of the scheduling points) of one concurrent program on the real code, enumerated " +
	"depth-first over the choice tree; programs are distinct multisets of call sequences; distinct_nontrivial counts the different observed " +
	"histories (order of calls and returns, with the answers and the final content) per program"

func pickN(r *core.Run, thorough, quick int) int {
	if r.Thorough {
		return thorough
	}
	return quick
}
