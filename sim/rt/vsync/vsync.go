// Package vsync stands in for package sync in instrumented code: blocking goes to the simulator's
// scheduler. Exactly one thread runs at a time, so the state needs no protection of its own.
package vsync

import (
	"sync"
	"unsafe"

	"verifsim/rt"
)

type Locker = sync.Locker
type Map = sync.Map

type queue struct{ ts []*rt.Thread }

//go:norace
func (q *queue) wait() {
	if t := rt.Current(); t != nil {
		q.ts = append(q.ts, t)
	}
	rt.Block()
}

//go:norace
func (q *queue) wakeAll() {
	for _, t := range q.ts {
		rt.Unblock(t)
	}
	q.ts = nil
}

//go:norace
func (q *queue) wakeOne() {
	if len(q.ts) > 0 {
		rt.Unblock(q.ts[0])
		q.ts = q.ts[1:]
	}
}

// Mutex is a mutual exclusion lock.
type Mutex struct {
	held bool
	q    queue
}

//go:norace
func (m *Mutex) Lock() {
	rt.Yield()
	for m.held {
		m.q.wait()
	}
	m.held = true
	rt.Locked(1)
	rt.Acquire(unsafe.Pointer(m))
}

//go:norace
func (m *Mutex) TryLock() bool {
	rt.Yield()
	if m.held {
		return false
	}
	m.held = true
	rt.Locked(1)
	rt.Acquire(unsafe.Pointer(m))
	return true
}

//go:norace
func (m *Mutex) Unlock() {
	if !m.held {
		panic("sync: unlock of unlocked mutex")
	}
	rt.Release(unsafe.Pointer(m))
	m.held = false
	rt.Locked(-1)
	m.q.wakeAll()
	rt.Yield()
}

// RWMutex is a reader/writer mutual exclusion lock.
type RWMutex struct {
	w       bool
	readers int
	q       queue
	rsem    byte
}

//go:norace
func (m *RWMutex) Lock() {
	rt.Yield()
	for m.w || m.readers > 0 {
		m.q.wait()
	}
	m.w = true
	rt.Locked(1)
	rt.Acquire(unsafe.Pointer(m))
	rt.Acquire(unsafe.Pointer(&m.rsem))
}

//go:norace
func (m *RWMutex) TryLock() bool {
	rt.Yield()
	if m.w || m.readers > 0 {
		return false
	}
	m.w = true
	rt.Locked(1)
	rt.Acquire(unsafe.Pointer(m))
	rt.Acquire(unsafe.Pointer(&m.rsem))
	return true
}

//go:norace
func (m *RWMutex) Unlock() {
	if !m.w {
		panic("sync: Unlock of unlocked RWMutex")
	}
	rt.Release(unsafe.Pointer(m))
	m.w = false
	rt.Locked(-1)
	m.q.wakeAll()
	rt.Yield()
}

//go:norace
func (m *RWMutex) RLock() {
	rt.Yield()
	for m.w {
		m.q.wait()
	}
	m.readers++
	rt.Locked(1)
	rt.Acquire(unsafe.Pointer(m))
}

//go:norace
func (m *RWMutex) TryRLock() bool {
	rt.Yield()
	if m.w {
		return false
	}
	m.readers++
	rt.Locked(1)
	rt.Acquire(unsafe.Pointer(m))
	return true
}

//go:norace
func (m *RWMutex) RUnlock() {
	if m.readers == 0 {
		panic("sync: RUnlock of unlocked RWMutex")
	}
	rt.Release(unsafe.Pointer(&m.rsem))
	m.readers--
	rt.Locked(-1)
	m.q.wakeAll()
	rt.Yield()
}

type rlocker RWMutex

func (r *rlocker) Lock()   { (*RWMutex)(r).RLock() }
func (r *rlocker) Unlock() { (*RWMutex)(r).RUnlock() }

func (m *RWMutex) RLocker() Locker { return (*rlocker)(m) }

// WaitGroup waits for threads to finish.
type WaitGroup struct {
	n int
	q queue
}

//go:norace
func (w *WaitGroup) Add(d int) {
	w.n += d
	if w.n < 0 {
		panic("sync: negative WaitGroup counter")
	}
	if d < 0 {
		rt.Release(unsafe.Pointer(w))
	}
	if w.n == 0 {
		w.q.wakeAll()
	}
}

func (w *WaitGroup) Done() { w.Add(-1) }

//go:norace
func (w *WaitGroup) Wait() {
	rt.Yield()
	for w.n > 0 {
		w.q.wait()
	}
	rt.Acquire(unsafe.Pointer(w))
}

func (w *WaitGroup) Go(f func()) {
	w.Add(1)
	rt.Go(func() { defer w.Done(); f() })
}

// Once performs one action.
type Once struct {
	done, busy bool
	q          queue
}

//go:norace
func (o *Once) Do(f func()) {
	rt.Yield()
	for o.busy {
		o.q.wait()
	}
	if o.done {
		rt.Acquire(unsafe.Pointer(o))
		return
	}
	o.busy = true
	rt.Locked(1)
	defer o.finish()
	f()
}

//go:norace
func (o *Once) finish() {
	o.busy, o.done = false, true
	rt.Locked(-1)
	rt.Release(unsafe.Pointer(o))
	o.q.wakeAll()
}

func OnceFunc(f func()) func() {
	var o Once
	return func() { o.Do(f) }
}

func OnceValue[T any](f func() T) func() T {
	var o Once
	var v T
	return func() T { o.Do(func() { v = f() }); return v }
}

func OnceValues[T, U any](f func() (T, U)) func() (T, U) {
	var o Once
	var v T
	var u U
	return func() (T, U) { o.Do(func() { v, u = f() }); return v, u }
}

// Pool hands out what was put last, to whichever thread asks: the least forgiving real pool.
type Pool struct {
	New   func() any
	items []any
	sema  byte
}

//go:norace
func (p *Pool) Get() any {
	rt.Yield()
	if l := len(p.items); l > 0 {
		x := p.items[l-1]
		p.items = p.items[:l-1]
		rt.Acquire(unsafe.Pointer(&p.sema))
		return x
	}
	if p.New != nil {
		return p.New()
	}
	return nil
}

//go:norace
func (p *Pool) Put(x any) {
	if x == nil {
		return
	}
	rt.Release(unsafe.Pointer(&p.sema))
	p.items = append(p.items, x)
	rt.Yield()
}

// Cond is a condition variable.
type Cond struct {
	L Locker
	q queue
}

func NewCond(l Locker) *Cond { return &Cond{L: l} }

//go:norace
func (c *Cond) Wait() {
	c.L.Unlock()
	c.q.wait()
	c.L.Lock()
}

func (c *Cond) Signal()    { c.q.wakeOne() }
func (c *Cond) Broadcast() { c.q.wakeAll() }
