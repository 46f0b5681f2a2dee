// Package vsync has the API of package sync. On goroutines controlled by sched every operation is a scheduling point
// and blocks cooperatively; elsewhere the types behave like the originals.
package vsync

import (
	"sync"
	"unsafe"

	"verif.local/h/sched"
)

type Locker = sync.Locker

// Mutex is a mutual exclusion lock.
type Mutex struct {
	real sync.Mutex
}

func (m *Mutex) id() uintptr { return uintptr(unsafe.Pointer(m)) }

func (m *Mutex) Lock() {
	t := sched.Current()
	if t == nil {
		m.real.Lock()
		return
	}
	t.Point()
	for !m.real.TryLock() {
		t.Wait(m.id())
	}
}

func (m *Mutex) TryLock() bool {
	if t := sched.Current(); t != nil {
		t.Point()
	}
	return m.real.TryLock()
}

func (m *Mutex) Unlock() {
	m.real.Unlock()
	sched.Wake(m.id())
	sched.Released()
}

// RWMutex is a reader/writer lock in which a waiting writer holds off new readers.
type RWMutex struct {
	real sync.RWMutex
	mu   sync.Mutex // hidden
	pend int        // controlled writers waiting
}

func (m *RWMutex) id() uintptr  { return uintptr(unsafe.Pointer(m)) }
func (m *RWMutex) idR() uintptr { return uintptr(unsafe.Pointer(m)) + 1 }

func (m *RWMutex) Lock() {
	t := sched.Current()
	if t == nil {
		m.real.Lock()
		return
	}
	t.Point()
	if m.real.TryLock() {
		return
	}
	m.pending(1)
	for {
		t.Wait(m.id())
		if m.real.TryLock() {
			break
		}
	}
	m.pending(-1)
}

//go:norace
func (m *RWMutex) pending(d int) int {
	sched.Hide()
	m.mu.Lock()
	m.pend += d
	n := m.pend
	m.mu.Unlock()
	sched.Unhide()
	return n
}

func (m *RWMutex) TryLock() bool {
	if t := sched.Current(); t != nil {
		t.Point()
	}
	return m.real.TryLock()
}

func (m *RWMutex) Unlock() {
	m.real.Unlock()
	// the readers that waited go before the next writer
	sched.Waiters(m.idR(), func(t *sched.Task) { t.Pass.Store(true) })
	sched.Wake(m.idR())
	sched.Wake(m.id())
	sched.Released()
}

func (m *RWMutex) RLock() {
	t := sched.Current()
	if t == nil {
		m.real.RLock()
		return
	}
	t.Point()
	t.ClearPass()
	for {
		if (t.HasPass() || m.pending(0) == 0) && m.real.TryRLock() {
			t.ClearPass()
			return
		}
		t.Wait(m.idR())
	}
}

func (m *RWMutex) TryRLock() bool {
	if t := sched.Current(); t != nil {
		t.Point()
	}
	return m.pending(0) == 0 && m.real.TryRLock()
}

func (m *RWMutex) RUnlock() {
	m.real.RUnlock()
	sched.Wake(m.id())
	if m.pending(0) == 0 {
		sched.Wake(m.idR())
	}
	sched.Released()
}

type rlocker RWMutex

func (r *rlocker) Lock()           { (*RWMutex)(r).RLock() }
func (r *rlocker) Unlock()         { (*RWMutex)(r).RUnlock() }
func (m *RWMutex) RLocker() Locker { return (*rlocker)(m) }

// S is the operation of sending on a channel that is about to be made.
func S[T any](c chan<- T) sched.ChanOp {
	return sched.ChanOp{Chan: *(*unsafe.Pointer)(unsafe.Pointer(&c)), Kind: 's'}
}

// R is that of receiving.
func R[T any](c <-chan T) sched.ChanOp {
	return sched.ChanOp{Chan: *(*unsafe.Pointer)(unsafe.Pointer(&c)), Kind: 'r'}
}

// C is R for a channel that serves as a signal.
func C[T any](c <-chan T) sched.ChanOp {
	return sched.ChanOp{Chan: *(*unsafe.Pointer)(unsafe.Pointer(&c)), Kind: 'c'}
}

// Await is a scheduling point put before operations on channels; it waits until one of them would not block.
func Await(ops ...sched.ChanOp) {
	if t := sched.Current(); t != nil {
		t.Point()
		if len(ops) > 0 {
			t.Until(ops)
		}
	}
}

// Close closes a channel.
func Close[T any](c chan<- T) {
	if t := sched.Current(); t != nil {
		t.Point()
	}
	close(c)
}

// WaitGroup waits for a collection of goroutines.
type WaitGroup struct {
	mu   sync.Mutex
	n    int
	real sync.WaitGroup
}

func (w *WaitGroup) id() uintptr { return uintptr(unsafe.Pointer(w)) }

func (w *WaitGroup) Add(d int) {
	if t := sched.Current(); t != nil {
		t.Point()
	}
	w.real.Add(d)
	if w.count(d) == 0 {
		sched.Wake(w.id())
	}
}

//go:norace
func (w *WaitGroup) count(d int) int {
	sched.Hide()
	w.mu.Lock()
	w.n += d
	n := w.n
	w.mu.Unlock()
	sched.Unhide()
	return n
}

func (w *WaitGroup) Done() { w.Add(-1) }

func (w *WaitGroup) Wait() {
	if t := sched.Current(); t != nil {
		t.Point()
		for w.count(0) > 0 {
			t.Wait(w.id())
		}
	}
	w.real.Wait()
}

func (w *WaitGroup) Go(f func()) {
	w.Add(1)
	go func() {
		defer w.Done()
		f()
	}()
}

// Once performs exactly one action.
type Once struct {
	m    Mutex
	done bool
}

func (o *Once) Do(f func()) {
	o.m.Lock()
	defer o.m.Unlock()
	if !o.done {
		defer func() { o.done = true }()
		f()
	}
}

func OnceFunc(f func()) func() {
	var (
		once  Once
		valid bool
		p     any
	)
	g := func() {
		defer func() {
			p = recover()
			if !valid {
				panic(p)
			}
		}()
		f()
		f = nil
		valid = true
	}
	return func() {
		once.Do(g)
		if !valid {
			panic(p)
		}
	}
}

func OnceValue[T any](f func() T) func() T {
	var r T
	o := OnceFunc(func() { r = f() })
	return func() T { o(); return r }
}

func OnceValues[T1, T2 any](f func() (T1, T2)) func() (T1, T2) {
	var r1 T1
	var r2 T2
	o := OnceFunc(func() { r1, r2 = f() })
	return func() (T1, T2) { o(); return r1, r2 }
}

// Pool hands out what was put last, whoever put it: the choice that exposes most sharing.
type Pool struct {
	New   func() any
	mu    sync.Mutex
	items []any
}

func (p *Pool) Get() any {
	if t := sched.Current(); t != nil {
		t.Point()
	}
	p.mu.Lock()
	var x any
	if n := len(p.items); n > 0 {
		x = p.items[n-1]
		p.items = p.items[:n-1]
	}
	p.mu.Unlock()
	if x == nil && p.New != nil {
		x = p.New()
	}
	return x
}

func (p *Pool) Put(x any) {
	if x == nil {
		return
	}
	if t := sched.Current(); t != nil {
		t.Point()
	}
	p.mu.Lock()
	p.items = append(p.items, x)
	p.mu.Unlock()
	if t := sched.Current(); t != nil {
		t.Point()
	}
}

// Map is a concurrent map.
type Map struct {
	mu   sync.Mutex
	m    map[any]any
	keys []any
}

func (m *Map) enter() {
	if t := sched.Current(); t != nil {
		t.Point()
	}
	m.mu.Lock()
	if m.m == nil {
		m.m = map[any]any{}
	}
}

// leave is a scheduling point after an operation that may have handed something to others.
func (m *Map) leave() {
	m.mu.Unlock()
	if t := sched.Current(); t != nil {
		t.Point()
	}
}

func (m *Map) set(k, v any) {
	if _, ok := m.m[k]; !ok {
		m.keys = append(m.keys, k)
	}
	m.m[k] = v
}

func (m *Map) del(k any) {
	if _, ok := m.m[k]; !ok {
		return
	}
	delete(m.m, k)
	for i, x := range m.keys {
		if x == k {
			m.keys = append(m.keys[:i:i], m.keys[i+1:]...)
			break
		}
	}
}

func (m *Map) Load(k any) (any, bool) {
	m.enter()
	defer m.mu.Unlock()
	v, ok := m.m[k]
	return v, ok
}
func (m *Map) Store(k, v any) {
	m.enter()
	defer m.leave()
	m.set(k, v)
}
func (m *Map) Clear() {
	m.enter()
	defer m.leave()
	m.m, m.keys = nil, nil
}
func (m *Map) LoadOrStore(k, v any) (any, bool) {
	m.enter()
	defer m.leave()
	if old, ok := m.m[k]; ok {
		return old, true
	}
	m.set(k, v)
	return v, false
}
func (m *Map) LoadAndDelete(k any) (any, bool) {
	m.enter()
	defer m.leave()
	v, ok := m.m[k]
	m.del(k)
	return v, ok
}
func (m *Map) Delete(k any) { m.LoadAndDelete(k) }
func (m *Map) Swap(k, v any) (any, bool) {
	m.enter()
	defer m.leave()
	old, ok := m.m[k]
	m.set(k, v)
	return old, ok
}
func (m *Map) CompareAndSwap(k, old, new any) bool {
	m.enter()
	defer m.leave()
	if v, ok := m.m[k]; ok && v == old {
		m.m[k] = new
		return true
	}
	return false
}
func (m *Map) CompareAndDelete(k, old any) bool {
	m.enter()
	defer m.leave()
	if v, ok := m.m[k]; ok && v == old {
		m.del(k)
		return true
	}
	return false
}
func (m *Map) Range(f func(k, v any) bool) {
	m.enter()
	keys := append([]any{}, m.keys...)
	m.mu.Unlock()
	for _, k := range keys {
		v, ok := m.Load(k)
		if ok && !f(k, v) {
			return
		}
	}
}

// Cond is a condition variable.
type Cond struct {
	L    Locker
	mu   sync.Mutex
	cond *sync.Cond // for uncontrolled waiters
	gen  []*waiter
}
type waiter struct{ ok bool }

func NewCond(l Locker) *Cond { return &Cond{L: l} }

func (c *Cond) Wait() {
	t := sched.Current()
	w := &waiter{}
	c.mu.Lock()
	if c.cond == nil {
		c.cond = sync.NewCond(&c.mu)
	}
	c.gen = append(c.gen, w)
	c.mu.Unlock()
	c.L.Unlock()
	if t == nil {
		c.mu.Lock()
		for !w.ok {
			c.cond.Wait()
		}
		c.mu.Unlock()
	} else {
		for {
			c.mu.Lock()
			ok := w.ok
			c.mu.Unlock()
			if ok {
				break
			}
			t.Wait(uintptr(unsafe.Pointer(c)))
		}
	}
	c.L.Lock()
}

func (c *Cond) wake(n int) {
	if t := sched.Current(); t != nil {
		t.Point()
	}
	c.mu.Lock()
	for n != 0 && len(c.gen) > 0 {
		c.gen[0].ok = true
		c.gen = c.gen[1:]
		n--
	}
	if c.cond != nil {
		c.cond.Broadcast()
	}
	c.mu.Unlock()
	sched.Wake(uintptr(unsafe.Pointer(c)))
}
func (c *Cond) Signal()    { c.wake(1) }
func (c *Cond) Broadcast() { c.wake(-1) }
