// Package rt is the part of the simulator that runs inside the code under test: the scheduling
// and crash point Y, which precedes every statement of the instrumented repository, and the
// scheduler that decides which thread runs.
//
// Threads are goroutines of which exactly one is ever runnable. A schedule is a list of segments
// (gap, thread): the current thread passes gap scheduling points, then thread runs. After the
// last segment threads run to completion one after another, or take turns (Config.RR).
package rt

import (
	crand "crypto/rand"
	"fmt"
	"math"
	"runtime"
	"runtime/debug"
	"strings"
	"sync"
)

// Entropy is where the random source's bytes come from. This package is initialised before the code
// under test, so that its own variables get the simulated source as well.
var Entropy func(p []byte) (int, error)

type source struct{ n uint64 }

func (s *source) Read(p []byte) (int, error) {
	if Entropy != nil {
		return Entropy(p)
	}
	for i := range p { // while packages are initialised
		s.n += 0x9e3779b97f4a7c15
		z := (s.n ^ s.n>>30) * 0xbf58476d1ce4e5b9
		p[i] = byte((z ^ z>>27) * 0x94d049bb133111eb >> 56)
	}
	return len(p), nil
}

func init() { crand.Reader = new(source) }

// Unsupported is set when the code under test blocks in ways that the scheduler does not control.
// Threads are then run one after another without preemption and crashes, and the goroutines that
// they start are free; each still has an entropy stream of its own.
var Unsupported bool

var (
	freeMu sync.Mutex
	free   map[string]*Thread // by goroutine, of the current run
)

// goid returns the name of the current goroutine.
func goid() string {
	var b [64]byte
	s := string(b[:runtime.Stack(b[:], false)]) // goroutine N [running]:...
	if i := strings.IndexByte(s, '['); i > 0 {
		s = s[:i]
	}
	return s
}

// goFree starts a goroutine that the scheduler does not control.
func goFree(f func()) {
	t := adopt()
	if t == nil {
		go f()
		return
	}
	go func() {
		id := goid()
		enrol(id, t)
		defer enrol(id, nil)
		defer catch(t)
		f()
	}()
}

//go:norace
func adopt() *Thread {
	parent := Current()
	if parent == nil {
		return nil
	}
	freeMu.Lock()
	defer freeMu.Unlock()
	t := &Thread{done: true}
	if fk, ok := parent.Stream.(Forker); ok {
		t.Stream = fk.Fork(parent.forks)
	}
	parent.forks++
	r.extra = append(r.extra, t)
	return t
}

//go:norace
func enrol(id string, t *Thread) {
	freeMu.Lock()
	defer freeMu.Unlock()
	if free == nil {
		free = map[string]*Thread{}
	}
	if t == nil {
		delete(free, id)
	} else {
		free[id] = t
	}
}

// Seg is one segment of a schedule.
type Seg struct {
	Gap int64 `json:"g"`
	T   int   `json:"t"`
}

// Thread is one thread of a run.
type Thread struct {
	ID     int
	Stream any // per-thread entropy, inherited by Fork
	Panic  any // value the thread panicked with
	Stack  string
	Killed bool  // the thread was killed by the schedule
	Budget bool  // the thread was stopped because the run exceeded its budget
	Ticks  int64 // scheduling points passed

	fn      func()
	wake    chan struct{}
	killAt  int64
	done    bool
	blocked bool
	locks   int
	exiting bool
	forks   int
}

// Forker is implemented by entropy streams.
type Forker interface{ Fork(i int) any }

// Stats describes a finished run.
type Stats struct {
	Ticks     int64
	Switches  int64
	Spawned   int
	Deadlock  bool
	Budget    bool
	Hash      uint64 // of the sequence of switches
	SchedUsed int
}

type run struct {
	threads []*Thread
	sched   []Seg
	pos     int
	cur     *Thread
	max     int64
	stats   Stats
	wg      sync.WaitGroup
	abort   bool
	left    int64 // points until the next switch of the schedule, -1: none
	live    int   // threads that are not done
	rr      int64 // quantum of the round robin after the schedule, 0: run to completion
	turns   int   // switches by round robin
	extra   []*Thread
}

const far = math.MaxInt64 / 4

var (
	n     int64 = far
	armed int64 = far
	r     *run
)

// Y is the scheduling point.
//
//go:norace
func Y() {
	n--
	if n <= 0 {
		slow()
	}
}

// Config of a run.
type Config struct {
	Sched    []Seg
	MaxTicks int64
	RR       int64 // after the schedule: round robin with this quantum (it grows), 0: run to completion
}

// Do runs the functions as threads until all of them are done.
func Do(cfg Config, fns []func(), prep func(i int, t *Thread)) ([]*Thread, Stats) {
	if r != nil {
		panic("rt: nested run")
	}
	x := &run{sched: cfg.Sched, max: cfg.MaxTicks, left: -1, rr: cfg.RR}
	if x.max <= 0 {
		x.max = far
	}
	if Unsupported {
		x.sched, x.rr = nil, 0
	}
	x.stats.Hash = 1469598103934665603
	for i, f := range fns {
		t := &Thread{ID: i, fn: f, wake: make(chan struct{}, 1)}
		if prep != nil {
			prep(i, t)
		}
		x.threads = append(x.threads, t)
	}
	if len(fns) == 0 {
		return nil, x.stats
	}
	for _, t := range x.threads {
		x.start(t)
	}
	r = x
	x.next()
	x.wg.Wait()
	return x.finish()
}

//go:norace
func (x *run) finish() ([]*Thread, Stats) {
	if Unsupported {
		freeMu.Lock()
		x.threads = append(x.threads, x.extra...)
		x.stats.Spawned += len(x.extra)
		free = nil
		freeMu.Unlock()
	}
	r = nil
	n, armed = far, far
	return x.threads, x.stats
}

// SetKill makes the thread die when it has passed at points.
func (t *Thread) SetKill(at int64) { t.killAt = at }

// Current returns the running thread, or nil outside of runs.
//
//go:norace
func Current() *Thread {
	if r == nil {
		return nil
	}
	if Unsupported {
		freeMu.Lock()
		defer freeMu.Unlock()
		if len(free) > 0 {
			if t := free[goid()]; t != nil {
				return t
			}
		}
	}
	return r.cur
}

// Active reports whether a run is in progress.
//
//go:norace
func Active() bool { return r != nil }

func (x *run) start(t *Thread) {
	x.count(1)
	x.wg.Add(1)
	go func() {
		defer x.wg.Done()
		defer x.exit(t)
		x.park(t)
		if x.aborting() {
			t.exiting = true
			runtime.Goexit()
		}
		defer catch(t)
		t.fn()
	}()
}

//go:norace
func (x *run) count(d int) { x.live += d }

func catch(t *Thread) {
	if v := recover(); v != nil {
		t.Panic = v
		t.Stack = string(debug.Stack())
	}
}

//go:norace
func (x *run) aborting() bool { return x.abort }

//go:norace
func (x *run) park(t *Thread) {
	raceOff()
	<-t.wake
	raceOn()
}

// exit is called when a thread is done: it hands over to the next one.
//
//go:norace
func (x *run) exit(t *Thread) {
	x.account()
	t.done = true
	x.count(-1)
	t.exiting = true
	x.next()
}

// account attributes the points passed since the last arming to the current thread.
//
//go:norace
func (x *run) account() {
	used := armed - n
	if x.cur != nil {
		x.cur.Ticks += used
		x.stats.Ticks += used
	}
	if x.left >= 0 {
		x.left -= used
		if x.left < 0 {
			x.left = 0
		}
	}
	n, armed = far, far
}

// arm sets the counter to the next point at which something happens to the current thread.
//
//go:norace
func (x *run) arm() {
	if Unsupported {
		n, armed = far, far
		return
	}
	a := x.max - x.stats.Ticks
	if x.left < 0 && x.pos < len(x.sched) {
		x.left = x.sched[x.pos].Gap
		if x.left < 1 {
			x.left = 1
		}
	}
	if x.left < 0 && x.rr > 0 && x.live > 1 {
		x.left = x.rr
	}
	if x.left >= 0 && x.left < a {
		a = x.left
	}
	if t := x.cur; t.killAt > 0 && !t.exiting {
		k := t.killAt - t.Ticks
		if k < 1 {
			k = 1
		}
		if k < a {
			a = k
		}
	}
	if a < 1 {
		a = 1
	}
	n, armed = a, a
}

// ready returns the first runnable thread at or after i, cyclically.
//
//go:norace
func (x *run) ready(i int) *Thread {
	l := len(x.threads)
	if l == 0 {
		return nil
	}
	i %= l
	if i < 0 {
		i += l
	}
	for k := 0; k < l; k++ {
		t := x.threads[(i+k)%l]
		if !t.done && (!t.blocked || x.abort) {
			return t
		}
	}
	return nil
}

// next hands over to another thread when the current one is done (or at the start).
//
//go:norace
func (x *run) next() {
	i := 0
	if x.cur != nil {
		i = x.cur.ID + 1
	}
	t := x.ready(i)
	if t == nil {
		for _, u := range x.threads {
			if !u.done {
				// everybody left is blocked
				x.stats.Deadlock = true
				x.abort = true
				t = u
				break
			}
		}
	}
	if t == nil {
		x.cur = nil
		return
	}
	x.switchTo(t)
}

//go:norace
func (x *run) switchTo(t *Thread) {
	x.note(t)
	x.cur = t
	x.arm()
	raceOff()
	t.wake <- struct{}{}
	raceOn()
}

//go:norace
func (x *run) note(t *Thread) {
	x.stats.Switches++
	h := x.stats.Hash
	h ^= uint64(t.ID + 1)
	h *= 1099511628211
	h ^= uint64(x.stats.Ticks)
	h *= 1099511628211
	x.stats.Hash = h
}

//go:norace
func slow() {
	x := r
	if x == nil {
		n, armed = far, far
		return
	}
	t := x.cur
	x.account()
	if t.exiting || t.done {
		x.arm()
		return
	}
	if x.stats.Ticks >= x.max {
		x.stats.Budget = true
		x.abort = true
		t.Budget = true
	}
	if x.abort {
		x.die(t)
	}
	if t.killAt > 0 && t.Ticks >= t.killAt && t.locks == 0 {
		t.Killed = true
		x.die(t)
	}
	if x.left == 0 {
		want := t.ID + 1
		if x.pos < len(x.sched) {
			want = x.sched[x.pos].T
			x.pos++
			x.stats.SchedUsed++
		} else if x.turns++; x.turns%20000 == 0 {
			x.rr *= 2
		}
		x.left = -1
		if u := x.ready(want); u != nil && u != t {
			x.switchTo(u)
			x.park(t)
			if x.abort && !t.exiting {
				x.die(t)
			}
			return
		}
	}
	x.arm()
}

// die ends the current thread; its deferred calls run, without further preemption.
//
//go:norace
func (x *run) die(t *Thread) {
	t.exiting = true
	n, armed = far, far
	runtime.Goexit()
}

// Go starts a thread from the running one.
func Go(f func()) {
	if Unsupported {
		goFree(f)
		return
	}
	if !Active() {
		f()
		return
	}
	fork(f)
}

//go:norace
func fork(f func()) {
	x := r
	x.account()
	t := &Thread{ID: len(x.threads), fn: f, wake: make(chan struct{}, 1)}
	if fk, ok := x.cur.Stream.(Forker); ok {
		t.Stream = fk.Fork(x.cur.forks)
	}
	x.cur.forks++
	x.threads = append(x.threads, t)
	x.stats.Spawned++
	x.start(t)
	x.arm()
}

// Block parks the current thread until Unblock; used by the shim of sync.
//
//go:norace
func Block() {
	x := r
	if x == nil {
		panic("rt: blocked outside of a run: deadlock")
	}
	t := x.cur
	x.account()
	if t.exiting {
		// a dying thread's deferred call would block for ever
		runtime.Goexit()
	}
	t.blocked = true
	x.next()
	x.park(t)
	if x.abort && !t.exiting {
		x.die(t)
	}
}

// Unblock makes a parked thread runnable.
//
//go:norace
func Unblock(t *Thread) { t.blocked = false }

// Locked tells that the current thread took (or released) a lock: it is not killed while it holds one.
//
//go:norace
func Locked(d int) {
	if r != nil && r.cur != nil {
		r.cur.locks += d
	}
}

// Yield lets other threads run, for waiting loops of the shim.
func Yield() { Y() }

func (t *Thread) String() string { return fmt.Sprintf("thread %d", t.ID) }
