package main

import (
	"bytes"
	"fmt"
	"math/big"
	"sort"

	"github.com/ing-bank/zkrp/crypto/bn256"
	"github.com/ing-bank/zkrp/crypto/p256"
	"github.com/ing-bank/zkrp/util"
	"verifsim/rt"
)

// The thread world: threads of one process work on a shared environment. A seeded schedule
// decides after how many scheduling points control passes to which thread, and which threads die
// at which point.

// opResult is what an operation returned.
type opResult struct {
	done    bool
	failed  bool // the operation reported an error
	panicv  string
	text    string // everything the caller can see of the result
	coarse  string // what stays comparable when the operation uses threads of its own
	problem string // the result is wrong, whatever the other threads did
}

type threadWorld struct {
	c     *Ctx
	order *big.Int
	env   any // pointer to the shared environment
	exec  func(env any, op Op) opResult
	judge func(op Op, r opResult) string // compares a result with the model, after the run
}

func envOp(k string) bool { return len(k) > 4 && k[:4] == "env-" }

// globals describes the package variables that everybody shares.
func globals() []any {
	f := func(xs ...any) []any { return xs }
	return f(util.G1, util.G2, util.E, p256.CURVE.P, p256.CURVE.N, p256.CURVE.B, p256.CURVE.Gx, p256.CURVE.Gy, bn256.Order, bn256.P)
}

// canaries compares some public computations with the reference model.
func (c *Ctx) canaries() {
	c.must("canary", NewStream(c.plan.Seed, "canary"), func() {
		r := NewRand(hash64(c.plan.Seed, "canary"))
		ks := []*big.Int{big.NewInt(1), big.NewInt(int64(2 + r.N(4))), big.NewInt(r.Log(1 << 16)), big.NewInt(r.Log(1 << 48)), r.Big(bnN), r.Big(secpN)}
		for i, k := range ks {
			if p := new(p256.P256).ScalarBaseMult(k); pointString(p) != refPoint(k).String() {
				c.fail("constants-changed", "after the run the base point times %v is wrong", k)
			}
			if i%3 != int(c.plan.Seed%3) {
				continue
			}
			if !sameAs("g1", new(bn256.G1).ScalarBaseMult(k).Marshal(), k) {
				c.fail("constants-changed", "after the run the generator of G1 raised to %v is wrong", k)
			}
			if !sameAs("g2", new(bn256.G2).ScalarBaseMult(k).Marshal(), k) {
				c.fail("constants-changed", "after the run the generator of G2 raised to %v is wrong", k)
			}
		}
	})
}

func (w *threadWorld) one(env any, op Op) (res opResult) {
	defer func() {
		if v := recover(); v != nil {
			if _, ok := v.(stop); ok {
				panic(v)
			}
			res.panicv = fmt.Sprint(v)
			res.done = true
		}
	}()
	if t := rt.Current(); t != nil {
		t.Stream = w.c.stream(op, w.order)
	}
	res = w.exec(env, op)
	res.done = true
	if t := rt.Current(); t != nil {
		if s, ok := t.Stream.(*Stream); ok && s != nil && s.failures() > 0 {
			res.problem = ""
			if !res.failed {
				res.problem = "the operation reported success although its random source failed"
			}
		}
	}
	return
}

// threadOps returns the operations by thread.
func threadOps(p *Plan) [][]int {
	byT := map[int][]int{}
	for i, op := range p.Ops {
		if !envOp(op.K) {
			byT[op.T] = append(byT[op.T], i)
		}
	}
	var ts []int
	for t := range byT {
		ts = append(ts, t)
	}
	sort.Ints(ts)
	var out [][]int
	for _, t := range ts {
		out = append(out, byT[t])
	}
	return out
}

func runThreads(w *threadWorld) {
	c := w.c
	plan := c.plan
	groups := threadOps(plan)
	if len(groups) == 0 {
		return
	}
	snapshot := deepCopyAny(w.env)
	shared := deepCopyAny(globals())
	res := make([]opResult, len(plan.Ops))
	var fns []func()
	for _, g := range groups {
		g := g
		fns = append(fns, func() {
			for _, i := range g {
				res[i] = w.one(w.env, plan.Ops[i])
			}
		})
	}
	kills := c.faults("kill")
	ts, st := rt.Do(rt.Config{Sched: plan.Sched, MaxTicks: 2_000_000_000, RR: plan.RR}, fns, func(i int, t *rt.Thread) {
		for _, f := range kills {
			if int(f.n(0)) == plan.Ops[groups[i][0]].T && f.n(1) > 0 {
				t.SetKill(f.n(1))
			}
		}
	})
	c.st.Ticks += st.Ticks
	c.st.Inter = st.Hash
	killed := false
	for _, t := range ts {
		if t.Panic != nil {
			if _, ok := t.Panic.(stop); ok {
				panic(stop{})
			}
			c.fail("panic", "a thread panicked: %s", panicText(t))
		}
		if t.Killed {
			killed = true
			c.fired("thread-killed")
		}
	}
	if st.Deadlock {
		c.fail("deadlock", "the threads wait for each other for ever")
	}
	if st.Budget {
		c.fail("no-termination", "the threads did not finish within the budget of scheduling points")
	}
	c.add("fault:preemption", int64(st.SchedUsed))
	c.st.Nontriv = len(groups) > 1 && st.SchedUsed > 0 || killed
	c.event("threads %d switches %d (%x) killed %v", len(groups), st.Switches, st.Hash, killed)
	// operations that died, or that a dead thread did not begin, are repeated with what is shared
	spawned := st.Spawned > 0
	for i, op := range plan.Ops {
		if envOp(op.K) || res[i].done {
			continue
		}
		c.count("repeated-after-death")
		o := c.call(NewStream(plan.Seed, "x"), 0, func() { res[i] = w.one(w.env, op) })
		if b := o.bad(); b != "" {
			c.fail("after-death:"+o.class(), "after another operation had died, %s %s", op.K, b)
		}
	}
	fp0, gl0 := fingerprint(snapshot), fingerprint(shared) // not before the run: it may be the first use of everything
	if fp := fingerprint(w.env); fp != fp0 {
		c.fail("shared-changed", "what the operations shared was changed: %s", firstDifference(fp0, fp))
	}
	if gl := fingerprint(globals()); gl != gl0 {
		c.fail("constants-changed", "package variables were changed: %s", firstDifference(gl0, gl))
	}
	c.canaries()
	for i, op := range plan.Ops {
		if envOp(op.K) {
			continue
		}
		r := res[i]
		c.event("op %d %s: %x", op.ID, op.K, hash64(r.text, r.panicv))
		if r.panicv != "" {
			c.fail("panic:"+op.K, "%s panicked: %s", op.K, r.panicv)
		}
		if r.problem != "" {
			c.fail("wrong-result:"+op.K, "%s: %s", op.K, r.problem)
		}
		if w.judge != nil {
			if p := w.judge(op, r); p != "" {
				c.fail("wrong-result:"+op.K, "%s %v: %s", op.K, op.S, p)
			}
		}
		var alone opResult
		cp := deepCopyAny(snapshot)
		o := c.call(NewStream(plan.Seed, "x"), 0, func() { alone = w.one(cp, op) })
		if b := o.bad(); b != "" {
			c.fail("alone:"+o.class(), "%s %s", op.K, b)
		}
		if spawned || o.Stats.Spawned > 0 {
			if r.coarse != alone.coarse {
				c.fail("different-from-alone:"+op.K, "%s gave %s among other threads and %s alone", op.K, r.coarse, alone.coarse)
			}
			continue
		}
		if r.text != alone.text || alone.panicv != "" {
			c.fail("different-from-alone:"+op.K, "%s did not return among other threads what it returns alone: %s", op.K, firstDifference(alone.text, r.text+alone.panicv))
		}
		if fp := fingerprint(cp); fp != fp0 {
			c.fail("shared-changed:"+op.K, "%s alone changed what it was given: %s", op.K, firstDifference(fp0, fp))
		}
	}
}

func firstDifference(a, b string) string {
	i := 0
	for i < len(a) && i < len(b) && a[i] == b[i] {
		i++
	}
	cut := func(s string) string {
		from := i - 60
		if from < 0 {
			from = 0
		}
		to := i + 60
		if to > len(s) {
			to = len(s)
		}
		if from > to {
			from = to
		}
		return s[from:to]
	}
	return fmt.Sprintf("%q became %q", cut(a), cut(b))
}

func short(b []byte) string {
	if len(b) < 100 {
		return fmt.Sprintf("%x", b)
	}
	return fmt.Sprintf("%d bytes, hash %x", len(b), hash64(string(b)))
}

// genSched makes a schedule for threads that together pass about total scheduling points.
func genSched(r *Rand, p *Plan, threads int, total int64) {
	if threads < 2 {
		return
	}
	if total < 100 {
		total = 100
	}
	seg := func(gap int64) { p.Sched = append(p.Sched, rt.Seg{Gap: 1 + gap, T: r.N(8 * threads)}) } // modulo, threads started later included
	switch r.N(8) {
	case 0: // a few switches at any time
		for i, n := 0, 1+r.N(6); i < n; i++ {
			seg(r.N64(total/int64(n) + 1))
		}
	case 1: // a few switches, early ones likely
		for i, n := 0, 1+r.N(12); i < n; i++ {
			seg(r.Log(total))
		}
	case 2, 3: // a burst of switches somewhere
		seg(r.N64(total))
		for i, n := 0, 20+r.N(60); i < n; i++ {
			seg(r.Log(100))
		}
	case 4: // several bursts
		for k := 0; k < 6; k++ {
			seg(r.N64(total / 4))
			for i, n := 0, 4+r.N(12); i < n; i++ {
				seg(r.Log(30))
			}
		}
	case 5: // round robin
		q := 1 + r.Log(total/10+1)
		n := total / q
		if n > 600 {
			n = 600
		}
		for i := int64(0); i < n; i++ {
			p.Sched = append(p.Sched, rt.Seg{Gap: q, T: int(i) % threads})
		}
	case 6: // from the start, growing gaps
		g := int64(1)
		for i := 0; i < 120 && g < total/10+2; i++ {
			seg(r.N64(2*g) + 1)
			g += g/16 + int64(r.N(2))
		}
	case 7: // one thread stalls while the others proceed
		slow := r.N(threads)
		seg(r.Log(total / 2))
		for i := 0; i < 20; i++ {
			p.Sched = append(p.Sched, rt.Seg{Gap: 1 + r.Log(total/4), T: (slow + 1 + r.N(threads-1)) % threads})
		}
	}
}

// genKills kills some of the threads within their first total points.
func genKills(r *Rand, p *Plan, threads int, total int64) {
	for t := 0; t < threads; t++ {
		if r.P(1, 2) {
			at := 1 + r.Log(total)
			switch r.N(5) {
			case 0, 1:
				at = 1 + r.N64(total)
			case 2:
				at = 1 + r.Log(400)
			}
			p.fault("kill", int64(t), at)
		}
	}
}

var _ = bytes.Equal
