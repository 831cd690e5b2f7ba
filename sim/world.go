package main

import (
	"bytes"
	"container/heap"
	"fmt"
	"math/big"
)

// The network world: provers with disks, relays and verifiers exchanging messages over a simulated
// network, in simulated time. Every choice is in the plan.

// Proto adapts one proof system of the repository to the world.
type Proto interface {
	// Setup creates the context of a "setup" operation. refused: the system gave an error.
	Setup(w *World, op Op) (ctx any, refused error)
	// Prove makes a proof. expect: 1 it has to be accepted by verifiers, -1 it must not be accepted (an error is fine).
	Prove(w *World, op Op, ctx any) (obj any, err error, expect int)
	Encode(obj any) []byte
	// Decode returns an error for bytes that are no message.
	Decode(b []byte) (any, error)
	Reencode(b []byte, style int64) []byte
	Verify(w *World, ctx any, obj any) (bool, error)
	// Core is the statement with all commitments and responses in canonical form.
	Core(obj any) string
	// Tamper makes the bytes of an altered message (nil: not applicable).
	Tamper(w *World, op Op) (b []byte, ctxID int, what string)
}

// Recycler is a Proto whose verifiers may receive a message into the object of an earlier one.
type Recycler interface {
	Recycle(dst, src any, b []byte) bool
	// VerifyOwn verifies the object itself, not a copy.
	VerifyOwn(w *World, ctx any, obj any) (bool, error)
}

type event struct {
	at  int64
	seq int64
	run func()
}

type eventHeap []event

func (h eventHeap) Len() int { return len(h) }
func (h eventHeap) Less(i, j int) bool {
	return h[i].at < h[j].at || h[i].at == h[j].at && h[i].seq < h[j].seq
}
func (h eventHeap) Swap(i, j int) { h[i], h[j] = h[j], h[i] }
func (h *eventHeap) Push(x any)   { *h = append(*h, x.(event)) }
func (h *eventHeap) Pop() any {
	o := *h
	x := o[len(o)-1]
	*h = o[:len(o)-1]
	return x
}

// Honest is a message that an honest prover produced.
type Honest struct {
	op     Op
	ctxID  int
	bytes  []byte
	core   string
	expect int
	obj    any
	values any // what the prover knew, for the forging operations
}

type node struct {
	id      int
	prover  bool
	up      bool
	mem     map[int][]byte // prover: messages it serves
	pending map[int]bool   // prover: messages whose write was not synced yet
	disk    map[int][]byte
	acked   map[[2]int]bool
	object  any // verifier: an object that it receives messages into
	got     int
}

// Config of a world.
type WorldCfg struct {
	Provers, Verifiers int
	MaxAttempts        int
	Live               bool // check that everything is accepted in the end
	NoIntactCheck      bool
	// Altered decides about a message that no honest prover sent and that was accepted. Default: its
	// core must be that of an honest message that is to be accepted.
	Altered func(w *World, ctxID int, obj any, b []byte, what string)
	// CtxFree: messages carry their parameters, so that honest messages of any context may be accepted.
	CtxFree bool
	// PanicOK: a panic of the verifier on altered messages is not this property's business.
	PanicOK bool
}

type World struct {
	c       *Ctx
	cfg     WorldCfg
	proto   Proto
	now     int64
	seq     int64
	q       eventHeap
	nodes   []*node
	ctxs    map[int]any
	ctxIDs  []int
	honest  []*Honest
	byOp    map[int]*Honest
	cores   map[string]*Honest
	faults  map[[4]int64]Fault // kind-specific key
	stop    int64
	shared  map[string]any
	accepts int
	verdict map[[2]int]int // (op, verifier) -> accepted intact deliveries
	queued  map[[2]int]bool
}

const (
	rto     = 50_000 // retransmission timeout, us
	latency = 1_000
)

func (w *World) after(d int64, f func()) {
	w.seq++
	heap.Push(&w.q, event{w.now + d, w.seq, f})
}

func newWorld(c *Ctx, proto Proto, cfg WorldCfg) *World {
	w := &World{c: c, cfg: cfg, proto: proto, ctxs: map[int]any{}, byOp: map[int]*Honest{}, cores: map[string]*Honest{},
		shared: map[string]any{}, verdict: map[[2]int]int{}, queued: map[[2]int]bool{}}
	for i := 0; i < cfg.Provers+cfg.Verifiers; i++ {
		w.nodes = append(w.nodes, &node{id: i, prover: i < cfg.Provers, up: true, mem: map[int][]byte{}, pending: map[int]bool{},
			disk: map[int][]byte{}, acked: map[[2]int]bool{}})
	}
	return w
}

// runWorld executes the plan's operations in the world.
func runWorld(c *Ctx, proto Proto, cfg WorldCfg) *World {
	if cfg.Provers == 0 {
		cfg.Provers = 1
	}
	if cfg.Verifiers == 0 {
		cfg.Verifiers = 1
	}
	if cfg.MaxAttempts == 0 {
		cfg.MaxAttempts = 8
	}
	w := newWorld(c, proto, cfg)
	for _, f := range c.plan.Faults {
		switch f.K {
		case "crash": // node, at, down for
			f := f
			w.after(f.n(1), func() { w.crash(f) })
			if e := f.n(1) + f.n(2); e > w.stop {
				w.stop = e
			}
		case "part": // node, from, for
			if e := f.n(1) + f.n(2); e > w.stop {
				w.stop = e
			}
		}
	}
	for _, op := range c.plan.Ops {
		op := op
		w.after(op.At, func() { w.exec(op) })
		if op.At > w.stop {
			w.stop = op.At
		}
	}
	steps := 0
	for w.q.Len() > 0 {
		e := heap.Pop(&w.q).(event)
		w.now = e.at
		e.run()
		if steps++; steps > 5000 {
			panic("world: too many steps")
		}
	}
	c.st.SimUs += w.now
	if cfg.Live {
		w.liveness()
	}
	return w
}

func (w *World) exec(op Op) {
	c := w.c
	switch op.K {
	case "setup":
		ctx, err := w.proto.Setup(w, op)
		c.event("t=%d setup %d err=%v", w.now, op.ID, err != nil)
		if err == nil && ctx != nil {
			w.ctxs[op.ID] = ctx
			w.ctxIDs = append(w.ctxIDs, op.ID)
		}
	case "prove":
		w.prove(op)
	default:
		b, ctxID, what := w.proto.Tamper(w, op)
		if b == nil {
			c.count("tamper-not-applicable")
			return
		}
		c.fired("message-" + what)
		c.st.Nontriv = true
		v := w.cfg.Provers + int(op.n(0))%w.cfg.Verifiers
		w.after(latency, func() { w.receive(v, ctxID, b, what, -1) })
	}
}

func (w *World) prove(op Op) {
	c := w.c
	p := w.nodes[int(op.n(0))%w.cfg.Provers]
	ctxID := int(op.n(1))
	ctx, ok := w.ctxs[ctxID]
	if !ok {
		return
	}
	if !p.up {
		w.after(rto, func() { w.prove(op) })
		return
	}
	obj, err, expect := w.proto.Prove(w, op, ctx)
	if err != nil {
		c.event("t=%d prove %d refused", w.now, op.ID)
		if expect > 0 {
			c.fail("honest-prover-refused", "operation %d: the prover refused a valid secret: %v (op %v)", op.ID, err, op)
		}
		c.count("prover-refused")
		c.st.Nontriv = true
		return
	}
	if expect == -2 {
		c.fail("invalid-secret-proved", "operation %d: the prover made a proof instead of returning an error (op %v)", op.ID, op)
	}
	b := w.proto.Encode(obj)
	h := &Honest{op: op, ctxID: ctxID, bytes: b, core: w.proto.Core(obj), expect: expect, obj: obj}
	w.honest = append(w.honest, h)
	w.byOp[op.ID] = h
	if expect > 0 {
		w.cores[w.coreKey(ctxID, h.core)] = h
	}
	c.event("t=%d prove %d %d bytes %x", w.now, op.ID, len(b), hash64(b))
	p.mem[op.ID] = b
	p.pending[op.ID] = true
	w.after(2*latency, func() { // sync of the write
		if p.pending[op.ID] {
			delete(p.pending, op.ID)
			p.disk[op.ID] = append([]byte(nil), b...)
		}
	})
	w.serve(p, op.ID)
}

func (w *World) coreKey(ctxID int, core string) string {
	if w.cfg.CtxFree {
		return core
	}
	if k, ok := w.ctxs[ctxID].(interface{ Key() string }); ok {
		return k.Key() + ":" + core
	}
	return fmt.Sprint(ctxID, ":", core)
}

// serve sends a message to all verifiers until they acknowledge it.
func (w *World) serve(p *node, opID int) {
	h := w.byOp[opID]
	for v := w.cfg.Provers; v < len(w.nodes); v++ {
		k := [2]int{opID, v}
		if w.queued[k] {
			continue
		}
		w.queued[k] = true
		w.send(p, h, v, 0)
	}
}

func (w *World) send(p *node, h *Honest, v, attempt int) {
	opID := h.op.ID
	if p.acked[[2]int{opID, v}] {
		return
	}
	if attempt >= w.cfg.MaxAttempts {
		return
	}
	w.after(rto, func() { w.send(p, h, v, attempt+1) })
	b, ok := p.mem[opID]
	if !p.up || !ok {
		return
	}
	w.transmit(p, h, v, attempt, b)
}

func (w *World) cut(id int) bool {
	for _, f := range w.c.plan.Faults {
		if f.K == "part" && int(f.n(0))%len(w.nodes) == id && w.now >= f.n(1) && w.now < f.n(1)+f.n(2) {
			w.c.fired("partition-loss")
			return true
		}
	}
	return false
}

// transmit applies the network's faults to one transmission.
func (w *World) transmit(p *node, h *Honest, v, attempt int, b []byte) {
	c := w.c
	if w.cut(p.id) || w.cut(v) {
		return
	}
	delay := int64(latency)
	copies := []int64{}
	what := "intact"
	if !bytes.Equal(b, h.bytes) {
		what = "stored-damaged"
	}
	for _, f := range c.plan.Faults {
		if f.n(0) != int64(h.op.ID) || int(f.n(1))%w.cfg.Verifiers != v-w.cfg.Provers || f.n(2) != int64(attempt) {
			continue
		}
		switch f.K {
		case "drop":
			c.fired("drop")
			c.st.Nontriv = true
			return
		case "delay":
			c.fired("delay")
			c.st.Nontriv = true
			delay += f.n(3)
		case "dup":
			c.fired("duplicate")
			c.st.Nontriv = true
			copies = append(copies, f.n(3))
		case "corrupt":
			if len(b) > 0 {
				c.fired("corrupt-bytes")
				c.st.Nontriv = true
				nb := append([]byte(nil), b...)
				nb[int(uint64(f.n(3))%uint64(len(nb)))] ^= byte(1 + uint64(f.n(4))%255)
				b, what = nb, "corrupt"
			}
		case "digit": // another decimal digit or letter: stays well-formed
			if nb := flipDigit(b, f.n(3), f.n(4)); nb != nil {
				c.fired("corrupt-digit")
				c.st.Nontriv = true
				b, what = nb, "digit"
			}
		case "trunc":
			c.fired("truncate")
			c.st.Nontriv = true
			b, what = b[:int(uint64(f.n(3))%uint64(len(b)+1))], "trunc"
		case "reenc":
			if what != "intact" {
				break
			}
			if nb := w.proto.Reencode(b, f.n(3)); nb != nil {
				c.fired("re-encode")
				c.st.Nontriv = true
				b = nb
				what = fmt.Sprintf("reencoded-%d", f.n(3))
			}
		}
	}
	id := h.op.ID
	w.after(delay, func() { w.receive(v, h.ctxID, b, what, id) })
	for _, d := range copies {
		w.after(delay+d, func() { w.receive(v, h.ctxID, b, what, id) })
	}
}

func flipDigit(b []byte, pos, d int64) []byte {
	var idx []int
	for i, x := range b {
		if x >= '0' && x <= '9' {
			idx = append(idx, i)
		}
	}
	if len(idx) == 0 {
		return nil
	}
	nb := append([]byte(nil), b...)
	i := idx[int(uint64(pos)%uint64(len(idx)))]
	nb[i] = '0' + (nb[i]-'0'+byte(1+uint64(d)%9))%10
	return nb
}

// receive is a verifier getting a message. opID: the operation whose transmission it is, or -1.
func (w *World) receive(v, ctxID int, b []byte, what string, opID int) {
	c := w.c
	n := w.nodes[v]
	if !n.up {
		c.fired("lost-at-crashed-verifier")
		return
	}
	intact := what == "intact" || len(what) > 9 && what[:9] == "reencoded"
	if !intact {
		for _, h := range w.honest {
			if h.ctxID == ctxID && bytes.Equal(h.bytes, b) {
				intact, opID = true, h.op.ID
			}
		}
	}
	ctx, ok := w.ctxs[ctxID]
	if !ok {
		return
	}
	var obj any
	var derr, verr error
	var verdict bool
	o := c.call(nil, 0, func() {
		obj, derr = w.proto.Decode(b)
		if derr == nil {
			verdict, verr = w.proto.Verify(w, ctx, obj)
		}
	})
	if bad := o.bad(); bad != "" {
		c.event("t=%d node %d op %d %s %s", w.now, v, opID, what, o.class())
		if intact {
			c.fail("verifier-"+o.class()+"-on-intact", "verifying the intact message of operation %d %s", opID, bad)
		}
		if !w.cfg.PanicOK {
			c.fail("verifier-"+o.class(), "verifying a message (%s) %s", what, bad)
		}
		c.count("verifier-panicked-on-altered")
		return
	}
	if derr == nil && verr == nil {
		verdict = w.recycle(n, ctxID, ctx, obj, b, verdict)
	}
	c.count("verdicts")
	c.event("t=%d node %d op %d %s dec=%v verdict=%v err=%v", w.now, v, opID, what, derr == nil, verdict, verr != nil)
	if verdict {
		w.accepts++
		c.count("accepted")
	}
	if intact && opID >= 0 {
		h := w.byOp[opID]
		switch {
		case h == nil:
		case h.expect > 0 && !verdict && !w.cfg.NoIntactCheck:
			c.fail("intact-rejected", "verifier %d rejected the %s message of operation %d %v (decode error %v, verify error %v)", v, what, opID, h.op, derr, verr)
		case h.expect < 0 && verdict:
			c.fail("invalid-accepted", "verifier %d accepted the proof of operation %d, whose statement is false: %v", v, opID, h.op)
		case h.expect > 0 && verdict:
			w.verdict[[2]int{opID, v}]++
			w.ack(v, opID)
		default:
			w.ack(v, opID) // a rejection is an answer too
		}
		return
	}
	if !verdict {
		c.count("altered-rejected")
		return
	}
	c.count("altered-accepted")
	if w.cfg.Altered != nil {
		w.cfg.Altered(w, ctxID, obj, b, what)
		return
	}
	var core string
	if o := c.call(nil, 0, func() { core = w.proto.Core(obj) }); o.bad() != "" {
		core = "uncomputable"
	}
	if w.cores[w.coreKey(ctxID, core)] == nil {
		c.fail("altered-accepted", "verifier %d accepted a message (%s) that is no honestly produced proof", v, what)
	}
	c.count("altered-accepted-equivalent")
}

// recycle verifies some of the messages once more, received into the object of an earlier message. The
// verdict depends on nothing but the contents; where it does not, the other verdict is the one judged.
func (w *World) recycle(n *node, ctxID int, ctx, obj any, b []byte, verdict bool) bool {
	r, ok := w.proto.(Recycler)
	if !ok {
		return verdict
	}
	n.got++
	if (n.got+n.id)%3 == 0 {
		return verdict
	}
	c := w.c
	if n.object == nil {
		if !verdict {
			return verdict
		}
		o := c.call(nil, 0, func() {
			if x, err := w.proto.Decode(b); err == nil {
				n.object = x
			}
		})
		if o.bad() != "" || n.object == nil {
			return verdict
		}
	} else {
		fits := false
		o := c.call(nil, 0, func() { fits = r.Recycle(n.object, obj, b) })
		if o.bad() != "" || !fits {
			n.object = nil
			return verdict
		}
	}
	var again bool
	var err error
	o := c.call(nil, 0, func() { again, err = r.VerifyOwn(w, ctx, n.object) })
	if o.bad() != "" {
		n.object = nil
		return verdict
	}
	c.fired("received-into-used-object")
	if again != verdict || err != nil {
		c.event("t=%d node %d ctx %d: verdict %v for the used object, %v for a fresh one", w.now, n.id, ctxID, again, verdict)
		return again
	}
	return verdict
}

func (w *World) ack(v, opID int) {
	c := w.c
	h := w.byOp[opID]
	p := w.nodes[int(h.op.n(0))%w.cfg.Provers]
	if w.cut(p.id) || w.cut(v) {
		return
	}
	for _, f := range c.plan.Faults {
		if f.K == "dropack" && f.n(0) == int64(opID) && int(f.n(1))%w.cfg.Verifiers == v-w.cfg.Provers && f.n(2) == int64(w.verdict[[2]int{opID, v}]) {
			c.fired("drop-ack")
			return
		}
	}
	w.after(latency, func() {
		if p.up {
			p.acked[[2]int{opID, v}] = true
		}
	})
}

// crash takes a node down; a prover keeps only what is on its disk.
func (w *World) crash(f Fault) {
	c := w.c
	n := w.nodes[int(f.n(0))%len(w.nodes)]
	if !n.up {
		return
	}
	c.fired("crash")
	c.st.Nontriv = true
	c.event("t=%d crash node %d", w.now, n.id)
	n.up = false
	n.object = nil
	if n.prover {
		var lost []int
		for _, op := range c.plan.Ops {
			if n.pending[op.ID] {
				lost = append(lost, op.ID)
			}
		}
		for i, id := range lost {
			b := n.mem[id]
			switch (f.n(3) + int64(i)) % 4 {
			case 0:
				c.fired("disk-lost-write")
			case 1:
				c.fired("disk-torn-write")
				n.disk[id] = b[:int(uint64(f.n(4))%uint64(len(b)+1))]
			case 2:
				c.fired("disk-torn-write")
				nb := append([]byte(nil), b...)
				k := int(uint64(f.n(4)) % uint64(len(b)+1))
				for j := k; j < len(nb) && j < k+512; j++ {
					nb[j] = 0
				}
				n.disk[id] = nb
			case 3:
				n.disk[id] = b
			}
		}
		if f.n(5) != 0 { // a stored byte rots
			for _, op := range c.plan.Ops {
				if b := n.disk[op.ID]; len(b) > 0 && int64(op.ID) == f.n(5) {
					c.fired("disk-flipped-byte")
					nb := append([]byte(nil), b...)
					nb[int(uint64(f.n(4))%uint64(len(b)))] ^= byte(1 + uint64(f.n(4)>>8)%255)
					n.disk[op.ID] = nb
				}
			}
		}
		n.mem, n.pending, n.acked = map[int][]byte{}, map[int]bool{}, map[[2]int]bool{}
	}
	w.after(f.n(2)+1, func() {
		c.event("t=%d restart node %d", w.now, n.id)
		n.up = true
		if n.prover {
			for _, op := range c.plan.Ops {
				if b := n.disk[op.ID]; b != nil {
					n.mem[op.ID] = b
					for v := w.cfg.Provers; v < len(w.nodes); v++ {
						h := w.byOp[op.ID]
						v := v
						w.after(latency, func() { w.resend(n, h, v, b) })
					}
				}
			}
		}
	})
}

// resend transmits what was read back from the disk.
func (w *World) resend(p *node, h *Honest, v int, b []byte) {
	if !p.up || w.cut(p.id) || w.cut(v) {
		return
	}
	what := "intact"
	if !bytes.Equal(b, h.bytes) {
		what = "stored-damaged"
	}
	w.c.count("resent-after-restart")
	w.receive(v, h.ctxID, b, what, h.op.ID)
}

// liveness: once faults have stopped, every proof that is still stored intact is accepted by every
// verifier within two retransmissions.
func (w *World) liveness() {
	c := w.c
	for _, h := range w.honest {
		if h.expect <= 0 {
			continue
		}
		p := w.nodes[int(h.op.n(0))%w.cfg.Provers]
		b, ok := p.mem[h.op.ID]
		if !ok || !bytes.Equal(b, h.bytes) {
			c.count("proof-lost-with-its-prover")
			continue
		}
		for v := w.cfg.Provers; v < len(w.nodes); v++ {
			if w.verdict[[2]int{h.op.ID, v}] > 0 {
				continue
			}
			ok := false
			for k := 0; k < 2 && !ok; k++ { // the network is now reliable
				w.now += rto
				w.receive(v, h.ctxID, b, "intact", h.op.ID)
				ok = w.verdict[[2]int{h.op.ID, v}] > 0
				c.count("late-retransmissions")
			}
			if !ok {
				c.fail("not-accepted-in-time", "operation %d was not accepted by verifier %d within 2 retransmissions after the faults stopped", h.op.ID, v)
			}
		}
	}
}

// netFaults draws network, disk and node faults for the plan's prove operations.
func netFaults(r *Rand, p *Plan, verifiers, provers int, corrupt bool) {
	rate := r.Pick(0, 1, 1, 2, 4) // out of 8
	var proves []Op
	var last int64
	for _, op := range p.Ops {
		if op.K == "prove" {
			proves = append(proves, op)
		}
		if op.At > last {
			last = op.At
		}
	}
	kinds := []string{}
	for _, k := range []string{"drop", "delay", "dup", "dropack", "reenc"} {
		if r.P(2, 3) {
			kinds = append(kinds, k)
		}
	}
	if corrupt {
		for _, k := range []string{"corrupt", "trunc", "digit"} {
			if r.P(2, 3) {
				kinds = append(kinds, k)
			}
		}
	}
	if len(kinds) == 0 {
		return
	}
	for _, op := range proves {
		for v := 0; v < verifiers; v++ {
			for a := 0; a < 3; a++ {
				if !r.P(int(rate), 8) {
					break
				}
				k := kinds[r.N(len(kinds))]
				switch k {
				case "delay":
					p.fault(k, int64(op.ID), int64(v), int64(a), r.Log(3*rto))
				case "dup":
					p.fault(k, int64(op.ID), int64(v), int64(a), r.Log(2*rto))
				case "reenc":
					p.fault(k, int64(op.ID), int64(v), int64(a), r.N64(6))
				case "corrupt", "trunc", "digit":
					p.fault(k, int64(op.ID), int64(v), int64(a), int64(r.U64()>>1), int64(r.U64()>>1))
				default:
					p.fault(k, int64(op.ID), int64(v), int64(a))
				}
			}
		}
	}
	if r.P(1, 3) {
		crashFault(r, p, corrupt)
	}
	if r.P(1, 6) {
		p.fault("crash", int64(provers+r.N(verifiers)), r.N64(last+rto), r.Log(4*rto))
	}
	if r.P(1, 5) {
		p.fault("part", int64(r.N(provers+verifiers)), r.N64(last+rto), r.Log(5*rto))
	}
}

// crashFault crashes a prover close to a write.
func crashFault(r *Rand, p *Plan, rotten bool) {
	var proves []Op
	for _, op := range p.Ops {
		if op.K == "prove" {
			proves = append(proves, op)
		}
	}
	if len(proves) == 0 {
		return
	}
	op := proves[r.N(len(proves))]
	at := op.At + r.Pick(1, latency, 2*latency-1, 2*latency+1, 3*latency, rto)
	rot := int64(0)
	if rotten && r.P(1, 3) {
		rot = int64(op.ID)
	}
	p.fault("crash", op.n(0), at, r.Log(4*rto), r.N64(4), int64(r.U64()>>1), rot)
}

// entFaults makes single draws of an operation take remarkable values.
func entFaults(r *Rand, p *Plan, op int, draws int) {
	n := r.Pick(0, 0, 1, 1, 2, 3)
	for k := int64(0); k < n; k++ {
		at := r.Log(int64(draws - 1))
		v := r.Pick(0, 0, 1, 2, 3, 4, 5+r.N64(256), 300+r.N64(1000))
		p.fault("ent", int64(op), at, v)
	}
	if n == 0 && r.P(1, 6) {
		p.fault("ent", -int64(op), r.N64(int64(draws)), r.N64(64), r.N64(2))
	}
}

var _ = big.NewInt

// number returns the number that an operation is given: in half of the executions each prover keeps
// one for each role, and sets it to the value that is needed next.
func (w *World) number(op Op, role string, v *big.Int) *big.Int {
	if w.c.plan.Seed%2 == 0 {
		return v
	}
	k := fmt.Sprint("number:", role, op.n(0))
	x, ok := w.shared[k].(*big.Int)
	if !ok {
		x = new(big.Int)
		w.shared[k] = x
	}
	w.c.count("inputs-in-used-objects")
	return x.Set(v)
}

// reuse overwrites numbers that an operation was given: when it has returned they are their owner's again.
func (w *World) reuse(op Op, xs ...*big.Int) {
	r := NewRand(hash64(w.c.plan.Seed, op.ID, "reuse"))
	if r.P(1, 3) {
		return
	}
	for _, x := range xs {
		ws := x.Bits()
		for i := range ws[:cap(ws)] {
			ws[:cap(ws)][i] = big.Word(r.U64())
		}
		x.SetInt64(r.N64(1 << 40))
	}
	w.c.count("inputs-reused")
}
