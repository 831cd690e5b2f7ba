package main

import (
	"fmt"
	"runtime/debug"
	"sort"

	"verifsim/rt"
)

// Spec is the check of one property.
type Spec struct {
	ID        string
	Gen       func(r *Rand, p *Plan, thorough bool)
	Run       map[string]func(c *Ctx)
	Quick     int // executions of the quick tier
	QuickRace int // of which under the race detector (in addition)
	Rule      string
	Real      []string
	Stub      []string
	Assume    []string
	Fresh     int // executions per process, 0: any number
	Weight    int // relative cost of one execution, for the thorough tier's batches
}

var specs = map[string]*Spec{}

func register(s *Spec) { specs[s.ID] = s }

func specIDs() []string {
	var ids []string
	for id := range specs {
		ids = append(ids, id)
	}
	sort.Strings(ids)
	return ids
}

// makePlan derives the i-th plan of a batch.
func makePlan(s *Spec, seed uint64, i int, race, thorough bool) *Plan {
	rs := int64(0)
	if race {
		rs = 1
	}
	h := hash64(seed, s.ID, i, rs)
	p := &Plan{Prop: s.ID, Seed: h, Race: race}
	s.Gen(NewRand(h), p, thorough)
	if r := NewRand(hash64(h, "turns")); p.RR == 0 && r.P(3, 4) {
		p.RR = 1 + r.Log(4000)
	}
	return p
}

// Result of one execution.
type Result struct {
	Viol  *Violation `json:"viol,omitempty"`
	Stats *Stats     `json:"stats"`
	Log   []string   `json:"log,omitempty"`
	Err   string     `json:"err,omitempty"` // trouble of the simulator itself
}

// execute runs a plan to its end or to its first violation.
func execute(p *Plan, verbose bool) (res Result) {
	c := &Ctx{plan: p, st: &Stats{C: map[string]int64{}}, verb: verbose}
	outside = NewStream(p.Seed, "outside")
	defer func() {
		if v := recover(); v != nil {
			if _, ok := v.(stop); !ok {
				res.Err = fmt.Sprintf("simulator panic: %v\n%s", v, debug.Stack())
			}
		}
		if rt.Active() {
			res.Err += " run left active"
		}
		c.st.Hist = c.hash
		res.Viol, res.Stats, res.Log = c.viol, c.st, c.log
	}()
	s := specs[p.Prop]
	f := s.Run[p.Kind]
	if f == nil {
		panic("unknown kind " + p.Kind)
	}
	f(c)
	return
}
