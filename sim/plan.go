package main

import (
	"fmt"
	"strings"

	"verifsim/rt"
)

// Op is one step of a workload. Its entropy depends on Plan.Seed and ID only, so that removing
// other operations does not change what it does.
type Op struct {
	ID int      `json:"id"`
	K  string   `json:"k"`
	T  int      `json:"t,omitempty"`  // thread
	At int64    `json:"at,omitempty"` // simulated time, microseconds
	N  []int64  `json:"n,omitempty"`
	S  []string `json:"s,omitempty"`
}

// Fault is one injected fault.
type Fault struct {
	K string  `json:"k"`
	N []int64 `json:"n,omitempty"`
}

// Plan determines one execution completely.
type Plan struct {
	Prop   string   `json:"property"`
	Kind   string   `json:"kind"`
	Seed   uint64   `json:"seed"`
	Race   bool     `json:"race,omitempty"`
	Cold   bool     `json:"cold,omitempty"` // the first execution of its process, shared objects come from another one
	Ops    []Op     `json:"ops"`
	Faults []Fault  `json:"faults"`
	Sched  []rt.Seg `json:"schedule"`
	RR     int64    `json:"round_robin,omitempty"` // after the schedule, threads take turns of so many scheduling points
}

func (o Op) n(i int) int64 {
	if i < len(o.N) {
		return o.N[i]
	}
	return 0
}

func (o Op) s(i int) string {
	if i < len(o.S) {
		return o.S[i]
	}
	return ""
}

func (f Fault) n(i int) int64 {
	if i < len(f.N) {
		return f.N[i]
	}
	return 0
}

func (p *Plan) op(k string, at int64, n []int64, s ...string) *Op {
	p.Ops = append(p.Ops, Op{ID: len(p.Ops) + 1, K: k, At: at, N: n, S: s})
	return &p.Ops[len(p.Ops)-1]
}

func (p *Plan) fault(k string, n ...int64) {
	p.Faults = append(p.Faults, Fault{K: k, N: n})
}

// Violation of a property.
type Violation struct {
	Prop  string `json:"property"`
	Class string `json:"class"`
	Msg   string `json:"message"`
}

// Ctx is the state of one execution.
type Ctx struct {
	plan *Plan
	st   *Stats
	viol *Violation
	log  []string
	hash uint64
	verb bool
}

// Stats of one execution; counters are summed over executions.
type Stats struct {
	C       map[string]int64 `json:"c"`
	Ticks   int64            `json:"ticks"`
	SimUs   int64            `json:"sim_us"`
	Hist    uint64           `json:"hist"`  // hash of the event history
	Inter   uint64           `json:"inter"` // hash of the interleaving
	Nontriv bool             `json:"nontriv"`
}

func (c *Ctx) count(k string)          { c.st.C[k]++ }
func (c *Ctx) add(k string, n int64)   { c.st.C[k] += n }
func (c *Ctx) fired(f string)          { c.st.C["fault:"+f]++ }
func (c *Ctx) faults(k string) []Fault { return pickFaults(c.plan.Faults, k) }

func pickFaults(fs []Fault, k string) []Fault {
	var out []Fault
	for _, f := range fs {
		if f.K == k {
			out = append(out, f)
		}
	}
	return out
}

func (c *Ctx) event(format string, args ...any) {
	s := fmt.Sprintf(format, args...)
	c.hash = mix(c.hash ^ hash64(s))
	if c.verb {
		c.log = append(c.log, s)
	}
}

type stop struct{}

// fail records the violation and ends the execution.
func (c *Ctx) fail(class, format string, args ...any) {
	if c.viol == nil {
		msg := fmt.Sprintf(format, args...)
		if len(msg) > 2000 {
			msg = msg[:2000] + "..."
		}
		c.viol = &Violation{c.plan.Prop, class, msg}
	}
	panic(stop{})
}

// Outcome of a call into the code under test.
type Outcome struct {
	Panic    string
	Killed   bool
	Budget   bool
	Deadlock bool
	Stats    rt.Stats
}

func (o Outcome) bad() string {
	switch {
	case o.Panic != "":
		return "panicked: " + o.Panic
	case o.Budget:
		return "did not terminate within the budget of scheduling points"
	case o.Deadlock:
		return "deadlocked"
	}
	return ""
}

func (o Outcome) class() string {
	switch {
	case o.Panic != "":
		return "panic"
	case o.Budget:
		return "no-termination"
	case o.Deadlock:
		return "deadlock"
	}
	return ""
}

const budget = 400_000_000

// call runs f, which calls the code under test, as a single simulated thread.
func (c *Ctx) call(s *Stream, killAt int64, f func()) Outcome {
	var o Outcome
	ts, st := rt.Do(rt.Config{MaxTicks: budget, RR: c.plan.RR}, []func(){f}, func(i int, t *rt.Thread) {
		if s != nil {
			t.Stream = s
		}
		if killAt > 0 {
			t.SetKill(killAt)
		}
	})
	for _, t := range ts {
		if t.Panic != nil {
			if _, ok := t.Panic.(stop); ok {
				panic(stop{})
			}
			if o.Panic == "" {
				o.Panic = panicText(t)
			}
		}
		o.Killed = o.Killed || t.Killed
	}
	o.Budget, o.Deadlock, o.Stats = st.Budget, st.Deadlock, st
	c.st.Ticks += st.Ticks
	return o
}

// must runs f and reports a violation when it does not return normally.
func (c *Ctx) must(what string, s *Stream, f func()) {
	o := c.call(s, 0, f)
	if b := o.bad(); b != "" {
		c.fail(what+":"+o.class(), "%s %s", what, b)
	}
}

func panicText(t *rt.Thread) string {
	s := fmt.Sprint(t.Panic)
	// the frames of the code under test, without addresses
	for _, l := range strings.Split(t.Stack, "\n") {
		if strings.HasPrefix(l, "github.com/ing-bank/zkrp/") {
			if i := strings.LastIndex(l, "("); i > 0 {
				l = l[:i]
			}
			s += " in " + strings.TrimPrefix(l, "github.com/ing-bank/zkrp/")
			break
		}
	}
	return s
}
