// Package sched is a cooperative scheduler: the goroutines of a program under test run one at a time and hand over
// control only at scheduling points (before every lock acquisition and atomic operation of the code under test, and
// between calls), so that every interleaving can be enumerated. The hand-overs are hidden from the race detector, so
// that it sees only the synchronisation of the code under test.
package sched

import (
	"runtime"
	"sync"
	"sync/atomic"
	"time"
	"unsafe"
)

const MaxTasks = 6

const (
	stReady = iota
	stRunning
	stWaiting
	stDone
)

// Task is one controlled goroutine.
type Task struct {
	s      *Sched
	id     int
	g      uintptr
	state  atomic.Int32
	waitOn atomic.Uintptr // object it waits for
	ops    [maxOps]ChanOp // what it waits for, if not for a call of Wake
	nops   int
	nudged bool
	Pass   atomic.Bool // see vsync.RWMutex
	wake   chan struct{}
	native bool // the scheduler gave up waiting for it: blocked outside the controlled primitives
}

// Sched runs one program once.
type Sched struct {
	tasks  [MaxTasks]Task
	n      int
	report chan struct{}
	ticks  atomic.Int64
	exit   chan struct{}
}

var active atomic.Pointer[Sched]

// Current is the task of the calling goroutine, nil if it is not controlled.
//
//go:norace
func Current() *Task {
	raceOff()
	s := active.Load()
	raceOn()
	if s == nil {
		return nil
	}
	g := getg()
	for i := 0; i < s.n; i++ {
		if s.tasks[i].g == g {
			return &s.tasks[i]
		}
	}
	return nil
}

// Point is a scheduling point.
//
//go:norace
func (t *Task) Point() {
	raceOff()
	t.state.Store(stReady)
	t.s.report <- struct{}{}
	<-t.wake
	raceOn()
}

// AfterRelease makes the release of a lock a scheduling point, too. Only what runs between two scheduling points unseen by
// the race detector (assembly) can tell the difference.
var AfterRelease bool

// Released is called after the release of a lock.
//
//go:norace
func Released() {
	if AfterRelease {
		if t := Current(); t != nil {
			t.Point()
		}
	}
}

// Wait parks the task until Wake(obj).
//
//go:norace
func (t *Task) Wait(obj uintptr) {
	raceOff()
	t.waitOn.Store(obj)
	t.state.Store(stWaiting)
	t.s.report <- struct{}{}
	<-t.wake
	raceOn()
}

// ChanOp is an operation on a channel: s, send; r, receive; c, receive from one that serves as a signal.
type ChanOp struct {
	Chan unsafe.Pointer
	Kind byte
}

// chanView is the beginning of the runtime's representation of a channel.
type chanView struct {
	n, size uint
	_       unsafe.Pointer
	_       uint16
	closed  uint32
}

// chanViewFits tells whether it is that with the runtime in use.
var chanViewFits = func() bool {
	c := make(chan int, 3)
	c <- 1
	v := *(**chanView)(unsafe.Pointer(&c))
	if v.n != 1 || v.size != 3 || v.closed != 0 {
		return false
	}
	close(c)
	return v.closed != 0
}()

// known tells whether it can be said when the operation would not block: for an unbuffered channel, whose other side need
// not be under control, only if it serves as a signal.
func (o ChanOp) known() bool {
	return chanViewFits && (o.Chan == nil || o.Kind == 'c' || (*chanView)(o.Chan).size > 0)
}

func (o ChanOp) due() bool {
	if o.Chan == nil {
		return false
	}
	v := (*chanView)(o.Chan)
	return v.closed != 0 || o.Kind == 's' && v.n < v.size || o.Kind != 's' && v.n > 0
}

const maxOps = 8

// Until parks the task until one of the operations would not block. It does nothing if that cannot be said.
//
//go:norace
func (t *Task) Until(ops []ChanOp) {
	raceOff()
	defer raceOn()
	if len(ops) > maxOps {
		return
	}
	for _, o := range ops {
		if !o.known() {
			return
		}
	}
	t.nops = copy(t.ops[:], ops)
	for i := 0; i < 100 && !t.due(); i++ { // some goroutine out of control may be about to see to it
		runtime.Gosched()
	}
	for !t.due() {
		t.state.Store(stWaiting)
		t.s.report <- struct{}{}
		<-t.wake
		if t.nudged {
			break
		}
	}
	t.nops = 0
}

//go:norace
func (t *Task) due() bool {
	for _, o := range t.ops[:t.nops] {
		if o.due() {
			return true
		}
	}
	return false
}

// due makes the tasks ready whose condition has come true.
//
//go:norace
func (s *Sched) due() {
	raceOff()
	for i := 0; i < s.n; i++ {
		t := &s.tasks[i]
		if t.state.Load() == stWaiting && t.nops > 0 && t.due() {
			t.state.Store(stReady)
		}
	}
	raceOn()
}

// Wake makes every task waiting for obj ready again.
//
//go:norace
func Wake(obj uintptr) {
	raceOff()
	s := active.Load()
	if s != nil {
		for i := 0; i < s.n; i++ {
			t := &s.tasks[i]
			if t.state.Load() == stWaiting && t.waitOn.Load() == obj {
				t.waitOn.Store(0)
				t.state.Store(stReady)
			}
		}
		select {
		case s.report <- struct{}{}:
		default:
		}
	}
	raceOn()
}

// Waiters calls f for every task waiting for obj.
//
//go:norace
func Waiters(obj uintptr, f func(t *Task)) {
	raceOff()
	s := active.Load()
	if s != nil {
		for i := 0; i < s.n; i++ {
			t := &s.tasks[i]
			if t.state.Load() == stWaiting && t.waitOn.Load() == obj {
				f(t)
			}
		}
	}
	raceOn()
}

// Tick is a global logical clock for recording histories, invisible to the race detector.
//
//go:norace
func (t *Task) Tick() int64 {
	raceOff()
	n := t.s.ticks.Add(1)
	raceOn()
	return n
}

// Decision is one choice made during a run.
type Decision struct {
	Enabled int // number of ready tasks
	Pick    int // index into the ready list: 0 is the task that ran last, if it is ready
	CurOK   bool
	Task    int
}

// Result of one run.
type Result struct {
	Trace     []Decision
	Deadlock  bool
	Waiting   []int
	Uncertain bool // a task blocked outside the controlled primitives
	Diverged  bool // the forced prefix did not fit
}

// Run executes the bodies under the given choice prefix, then always picking the first ready task.
func Run(bodies []func(*Task), prefix []int) Result { return RunAs(bodies, prefix, false) }

// RunAs is Run; turns makes the task after the one that ran last the first one to pick, so that all advance alike, and
// every other pick counts as a preemption.
func RunAs(bodies []func(*Task), prefix []int, turns bool) Result {
	if len(bodies) > MaxTasks {
		panic("too many tasks")
	}
	s := &Sched{n: len(bodies), report: make(chan struct{}, 64), exit: make(chan struct{})}
	var wg sync.WaitGroup
	for i := range bodies {
		t := &s.tasks[i]
		t.s, t.id = s, i
		t.wake = make(chan struct{}, 1)
		t.state.Store(stRunning)
	}
	ticker.Do(func() { go tick() })
	active.Store(s)
	for i := range bodies {
		wg.Add(1)
		go start(&s.tasks[i], bodies[i], &wg)
	}
	res := s.loop(prefix, turns)
	active.Store(nil)
	if res.Deadlock {
		return res // its goroutines are abandoned
	}
	closeExit(s)
	wg.Wait()
	return res
}

var ticker sync.Once

// tick makes the scheduler look at the clock now and then. (No timer channels: the race detector would see their
// internals without the hidden synchronisation.)
//
//go:norace
func tick() {
	for {
		time.Sleep(50 * time.Millisecond)
		raceOff()
		if s := active.Load(); s != nil {
			select {
			case s.report <- struct{}{}:
			default:
			}
		}
		raceOn()
	}
}

//go:norace
func closeExit(s *Sched) {
	raceOff()
	close(s.exit)
	raceOn()
}

//go:norace
func start(t *Task, body func(*Task), wg *sync.WaitGroup) {
	t.g = getg()
	t.Point()
	body(t)
	raceOff()
	t.state.Store(stDone)
	t.s.report <- struct{}{}
	<-t.s.exit
	raceOn()
	wg.Done()
}

//go:norace
func (s *Sched) running() int {
	n := 0
	for i := 0; i < s.n; i++ {
		if s.tasks[i].state.Load() == stRunning && !s.tasks[i].native {
			n++
		}
	}
	return n
}

// settle waits until no controlled task runs.
//
//go:norace
func (s *Sched) settle(res *Result) {
	raceOff()
	var since time.Time
	for s.running() > 0 {
		<-s.report
		if since.IsZero() {
			since = time.Now()
		} else if s.running() > 0 && time.Since(since) > nativeWait {
			for i := 0; i < s.n; i++ {
				if s.tasks[i].state.Load() == stRunning {
					s.tasks[i].native = true
				}
			}
			res.Uncertain = true
			nativeWait = nativeWaitLater
		}
	}
	for i := 0; i < s.n; i++ { // native ones that came back
		if s.tasks[i].native && s.tasks[i].state.Load() != stRunning {
			s.tasks[i].native = false
		}
	}
	raceOn()
}

// nativeWait is how long a running task may stay silent before it counts as blocked outside the controlled primitives (a
// wrong guess costs completeness only: it then runs in parallel with the others). Once this has happened, the code under
// test does block elsewhere, and the patience is less.
var nativeWait = 3 * time.Second

const nativeWaitLater = 150 * time.Millisecond

const deadlockWait = 2 * time.Second
const hangWait = 20 * time.Second

func (s *Sched) loop(prefix []int, turns bool) (res Result) {
	s.settle(&res)
	cur := -1
	var deadSince time.Time
	nudged := 0
	for {
		s.due()
		var ready [MaxTasks]int
		n, done := 0, 0
		curOK := false
		if turns {
			curOK = true
		} else if cur >= 0 && s.tasks[cur].state.Load() == stReady {
			ready[0] = cur
			n = 1
			curOK = true
		}
		for k := 0; k < s.n; k++ {
			i := k
			if turns {
				i = (k + cur + 1) % s.n
			}
			st := s.tasks[i].state.Load()
			if st == stDone {
				done++
			}
			if st == stReady && (turns || i != cur) {
				ready[n] = i
				n++
			}
		}
		if done == s.n {
			return
		}
		if n == 0 {
			// maybe an uncontrolled goroutine will release something
			if deadSince.IsZero() {
				deadSince = time.Now()
			}
			limit := deadlockWait
			if s.running() < s.n-done-s.waiting() {
				limit = hangWait // one of them runs or blocks outside the controlled primitives
			}
			if time.Since(deadSince) > limit && nudged < 2 && s.waiting() > 0 {
				// no wake-up of the shims may have been lost: let the waiting ones look again
				nudged++
				for i := 0; i < s.n; i++ {
					if s.tasks[i].state.Load() == stWaiting {
						s.tasks[i].nudged = true
						s.tasks[i].state.Store(stReady)
					}
				}
				deadSince = time.Time{}
				continue
			}
			if time.Since(deadSince) > limit {
				res.Deadlock = true
				for i := 0; i < s.n; i++ {
					if s.tasks[i].state.Load() != stDone {
						res.Waiting = append(res.Waiting, i)
					}
				}
				return
			}
			s.idle()
			continue
		}
		deadSince = time.Time{}
		pick := 0
		if len(res.Trace) < len(prefix) {
			pick = prefix[len(res.Trace)]
			if pick >= n {
				res.Diverged = true
				pick = 0
			}
		}
		t := &s.tasks[ready[pick]]
		res.Trace = append(res.Trace, Decision{Enabled: n, Pick: pick, CurOK: curOK, Task: t.id})
		cur = t.id
		s.grant(t)
		s.settle(&res)
	}
}

func (s *Sched) waiting() int {
	n := 0
	for i := 0; i < s.n; i++ {
		if s.tasks[i].state.Load() == stWaiting {
			n++
		}
	}
	return n
}

//go:norace
func (s *Sched) idle() {
	raceOff()
	<-s.report
	for i := 0; i < s.n; i++ {
		if s.tasks[i].native && s.tasks[i].state.Load() != stRunning {
			s.tasks[i].native = false
		}
	}
	raceOn()
}

//go:norace
func (s *Sched) grant(t *Task) {
	raceOff()
	t.state.Store(stRunning)
	t.wake <- struct{}{}
	raceOn()
}

// maxUncertain is the number of schedules with uncontrolled blocking after which a program is given up.
const maxUncertain = 4

// Explored is what became of the exploration of a program.
type Explored struct {
	N       int  // schedules run
	Pruned  bool // schedules with more preemptions than allowed were left out
	Cut     bool // stopped early, or some runs were not controllable
	Bound   int  // the preemption bound that was used
	Longest int  // decisions of the longest schedule
}

// Explore enumerates every schedule of a program with at most bound preemptions (bound < 0: all schedules); bound may
// depend on the length of the first run. once runs the program under a prefix; visit judges a finished run and returns
// false to stop.
func Explore(boundFor func(points int) int, limit int, once func(prefix []int) Result, visit func(r Result, choice []int) bool) (e Explored) {
	var prefix []int
	uncertain := 0
	for {
		res := once(prefix)
		if e.N == 0 {
			e.Bound = boundFor(len(res.Trace))
		}
		e.N++
		e.Longest = max(e.Longest, len(res.Trace))
		choice := make([]int, len(res.Trace))
		for i, d := range res.Trace {
			choice[i] = d.Pick
		}
		if !visit(res, choice) {
			e.Cut = true
			return
		}
		if res.Uncertain {
			uncertain++
		}
		if res.Deadlock || res.Diverged || res.Uncertain {
			e.Cut = true
			if res.Deadlock || uncertain >= maxUncertain {
				return
			}
		}
		if limit > 0 && e.N >= limit {
			e.Cut = true
			return
		}
		// preemptions used before each decision
		used := make([]int, len(res.Trace)+1)
		for i, d := range res.Trace {
			used[i+1] = used[i]
			if d.CurOK && d.Pick != 0 {
				used[i+1]++
			}
		}
		i := len(res.Trace) - 1
		for ; i >= 0; i-- {
			d := res.Trace[i]
			if d.Pick+1 >= d.Enabled {
				continue
			}
			if e.Bound >= 0 && d.CurOK && d.Pick == 0 && used[i]+1 > e.Bound {
				e.Pruned = true
				continue
			}
			break
		}
		if i < 0 {
			return
		}
		prefix = append(choice[:i:i], choice[i]+1)
	}
}

// Hide and Unhide bracket bookkeeping of the shims that the race detector must not take for synchronisation.
//
//go:norace
func Hide() { raceOff() }

//go:norace
func Unhide() { raceOn() }

//go:norace
func (t *Task) ClearPass() { raceOff(); t.Pass.Store(false); raceOn() }

//go:norace
func (t *Task) HasPass() bool { raceOff(); v := t.Pass.Load(); raceOn(); return v }
