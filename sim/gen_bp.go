package main

import (
	"encoding/json"
	"fmt"
	"math/big"
	"strings"

	"github.com/ing-bank/zkrp/bulletproofs"
	"github.com/ing-bank/zkrp/crypto/p256"
)

// The generic interval proofs of package bulletproofs in the network world.

type bprpProto struct{}

type bprpCtx struct {
	a, b  int64
	prove func(secret *big.Int) (bulletproofs.ProofBPRP, error)
}

func (bprpProto) Recycle(dst, src any, b []byte) bool { return recycleJSON(dst, src, b) }

func (bprpProto) VerifyOwn(w *World, ctx any, obj any) (bool, error) {
	return obj.(*bulletproofs.ProofBPRP).Verify()
}

func (bprpProto) Setup(w *World, op Op) (any, error) {
	ctx := &bprpCtx{a: op.n(0), b: op.n(1)}
	var err error
	w.c.must("interval-setup", nil, func() {
		params, e := bulletproofs.SetupGeneric(ctx.a, ctx.b)
		err = e
		if e == nil {
			ctx.prove = func(secret *big.Int) (bulletproofs.ProofBPRP, error) {
				return bulletproofs.ProveGeneric(secret, params)
			}
		}
	})
	if err != nil {
		if ctx.valid() {
			w.c.fail("setup-refused", "SetupGeneric(%d, %d) failed: %v", ctx.a, ctx.b, err)
		}
		return nil, err
	}
	return ctx, nil
}

// width is B - A
func (x *bprpCtx) width() *big.Int { return new(big.Int).Sub(big.NewInt(x.b), big.NewInt(x.a)) }

func (x *bprpCtx) valid() bool { return x.width().Sign() > 0 && x.width().Cmp(pow2(32)) <= 0 }

func (x *bprpCtx) in(v *big.Int) bool {
	return v.Cmp(big.NewInt(x.a)) >= 0 && v.Cmp(big.NewInt(x.b)) < 0
}

// halves are the numbers that the two halves commit to
func (x *bprpCtx) halves(v *big.Int) [2]*big.Int {
	v1 := new(big.Int).Sub(v, big.NewInt(x.b))
	return [2]*big.Int{v1.Add(v1, pow2(32)), new(big.Int).Sub(v, big.NewInt(x.a))}
}

type halfInfo struct {
	v      *big.Int
	honest *Honest
	half   int
}

func (bprpProto) Prove(w *World, op Op, ctx any) (any, error, int) {
	x := ctx.(*bprpCtx)
	secret := w.number(op, "secret", bigOf(op.s(0)))
	s := w.c.stream(op, secpN)
	var proof bulletproofs.ProofBPRP
	var err error
	w.c.must("interval-prover", s, func() { proof, err = x.prove(secret) })
	w.c.absorb(s)
	expect := -1
	if x.in(secret) {
		expect = 0
		if x.valid() {
			expect = 1
		}
	}
	if err == nil {
		hv := x.halves(secret)
		for i, h := range []*bulletproofs.BulletProof{&proof.P1, &proof.P2} {
			if hv[i].Sign() >= 0 && hv[i].Cmp(pow2(32)) < 0 && h.Params.N == 32 {
				w.shared["half:"+coreBP(h)] = hv[i]
			}
		}
	}
	w.reuse(op, secret)
	return &proof, err, expect
}

func (bprpProto) Encode(obj any) []byte { return jsonOf(obj) }

func (bprpProto) Decode(b []byte) (any, error) {
	var p bulletproofs.ProofBPRP
	if err := json.Unmarshal(b, &p); err != nil {
		return nil, err
	}
	return &p, nil
}

func (bprpProto) Verify(w *World, ctx any, obj any) (bool, error) {
	return obj.(*bulletproofs.ProofBPRP).Verify()
}

func (bprpProto) Core(obj any) string {
	p := obj.(*bulletproofs.ProofBPRP)
	return fmt.Sprint(p.A, ":", p.B, ":", coreBP(&p.P1), "|", coreBP(&p.P2))
}

func (bprpProto) Reencode(b []byte, style int64) []byte {
	if style%6 == 0 {
		var p bulletproofs.ProofBPRP
		if json.Unmarshal(b, &p) != nil {
			return nil
		}
		return jsonOf(&p)
	}
	return reencodeJSON(b, style)
}

// Tamper: op.N = verifier, message, other message, variant, seed, extra.
func (bprpProto) Tamper(w *World, op Op) ([]byte, int, string) {
	h, o := w.pick(op.n(1)), w.pick(op.n(2))
	if h == nil || o == nil {
		return nil, 0, ""
	}
	p := deepCopy(h.obj.(*bulletproofs.ProofBPRP))
	q := deepCopy(o.obj.(*bulletproofs.ProofBPRP))
	r := NewRand(uint64(op.n(4)))
	what := op.K
	half := &p.P1
	if r.P(1, 2) {
		half = &p.P2
	}
	switch op.K {
	case "recombine":
		switch op.n(3) % 8 {
		case 0:
			p.P1 = q.P1
		case 1:
			p.P2 = q.P2
		case 2:
			p.P1, p.P2 = p.P2, p.P1
		case 3:
			p.P2 = deepCopy(p.P1)
		case 4:
			p.P1 = deepCopy(p.P2)
		case 5:
			p.P1 = q.P2
		case 6:
			p.P2 = q.P1
		case 7:
			p.A, p.B = q.A, q.B
		}
	case "bounds":
		d := []int64{1, -1, 2, -2, 1 << 31, 1 << 32, -(1 << 32), 1 << 62}[r.N(8)]
		if r.P(1, 2) {
			p.A += d
		} else {
			p.B += d
		}
	case "bounds-and-half": // makes the linking equation hold for other halves
		if r.P(1, 2) {
			p.P1 = q.P1
		} else {
			p.P2 = q.P2
		}
		hp, ok1 := w.shared["half:"+coreBP(&p.P1)].(*big.Int)
		hq, ok2 := w.shared["half:"+coreBP(&p.P2)].(*big.Int)
		if ok1 && ok2 {
			d := new(big.Int).Sub(hp, hq)
			d.Sub(d, pow2(32))
			p.A = p.B + d.Int64()
		}
	case "half-mutate":
		ss := slots(half)
		for k := int64(0); k < 1+op.n(5); k++ {
			mutateSlot(ss, coreSlot(ss, r), int64(r.N(10)), int64(r.U64()>>1), slots(&q.P1), secpN)
		}
	case "half-maul":
		what += mauls[int(op.n(3))%len(mauls)].name
		if !maul(w.c, half, int(op.n(3)), r) {
			return nil, 0, ""
		}
	case "both-maul": // shifts both value commitments by the same amount
		d := r.Big(secpN)
		for _, b := range []*bulletproofs.BulletProof{&p.P1, &p.P2} {
			sh := w.c.shapeOf(b)
			_, z := sh.chYZ([]pt{b.V, b.A, b.S, b.T1, b.T2})
			b.V = shift(b.V, hGen(), d)
			b.Taux = addN(b.Taux, mulN(d, mulN(z, z)))
		}
	case "half-other-range": // a valid proof for another range
		n := r.Pick(1, 2, 4, 8, 16)
		v := inRangeSecret(r, n)
		var bp bulletproofs.BulletProof
		s := NewStream(w.c.plan.Seed, op.ID, "half")
		ok := false
		w.c.must("range-prover", s, func() {
			params, err := bulletproofs.Setup(rangeEnd(n))
			if err == nil {
				bp, err = bulletproofs.Prove(v, params)
			}
			ok = err == nil
		})
		if !ok {
			return nil, 0, ""
		}
		*half = bp
		if r.P(1, 2) { // make it look like one for the full range
			half.Params.N = 32
			if r.P(1, 2) {
				half.Params.Gg, half.Params.Hh = q.P1.Params.Gg, q.P1.Params.Hh
			}
		}
	case "half-full-range": // valid proof of the full range for an unrelated secret
		v := inRangeSecret(r, 32)
		var bp bulletproofs.BulletProof
		s := NewStream(w.c.plan.Seed, op.ID, "half")
		ok := false
		w.c.must("range-prover", s, func() {
			params, err := bulletproofs.Setup(rangeEnd(32))
			if err == nil {
				bp, err = bulletproofs.Prove(v, params)
			}
			ok = err == nil
		})
		if !ok {
			return nil, 0, ""
		}
		*half = bp
		w.shared["half:"+coreBP(&bp)] = v
	case "lie-halves": // a dishonest prover's halves, tied by the same blinding
		sh := w.c.shapeOf(&p.P1)
		secret := bigOf(op.s(0))
		x := w.ctxs[h.ctxID].(*bprpCtx)
		hv := x.halves(secret)
		// what the commitments open to counts modulo the group order
		inside := x.in(new(big.Int).Add(big.NewInt(x.a), modN(hv[1])))
		for i, b := range []*bulletproofs.BulletProof{&p.P1, &p.P2} {
			size := int64(32)
			if op.n(3)%2 == 1 {
				size = r.Pick(2, 4, 8)
			}
			name := liarNames[int(op.n(3)/2)%len(liarNames)]
			if inside {
				name, size = "plain", 32
			}
			l := lie(name, size, hv[i], sh, NewRand(uint64(op.n(4))), b)
			if l == nil {
				return nil, 0, ""
			}
			*b = *l
			if inside { // nothing to lie about: a control
				w.shared["half:"+coreBP(b)] = modN(hv[i])
				what = "control"
			}
		}
	case "tie-halves": // two valid halves about different secrets, and bounds for which a careless link holds
		sh := w.c.shapeOf(&p.P1)
		lr := NewRand(uint64(op.n(4)))
		v1, v2, g := r.N64(1<<32), r.N64(1<<32), lr.Big(secpN)
		g1 := g
		A := r.Pick(0, 18, -7, 1000, 1<<31, -(1 << 33), r.Log(1<<40))
		diff := v1 - v2 // should be 2^32-B+A
		B := A + 1<<32 - diff
		switch op.n(3) % 8 {
		case 0: // one commitment is the inverse of the other one
			what += "(inverse)"
			g1 = modN(new(big.Int).Neg(g))
			B = A + 1<<32 + v1 + v2
		case 1: // 64-bit arithmetic
			what += "(wrap)"
			A = 1<<63 - 1 - r.Log(1<<20)
			if A+1<<32-diff > 0 { // does not exceed int64: wrap the other way around
				A = 1<<63 - 1
			}
			B = A + 1<<32 - diff
		case 2: // 32-bit arithmetic
			what += "(mod 2^32)"
			B += 1 << 32 * r.Pick(1, -1, 2, 5)
		case 3:
			what += "(exchanged)"
			B = A + 1<<32 + diff
		case 4:
			what += "(A ignored)"
			A = 1 + r.Log(1<<40)
			B = 1<<32 - diff
		case 5:
			what += "(B ignored)"
			A = diff - 1<<32
			B = r.Pick(1, 200, 1<<32, r.Log(1<<40)+1)
		case 6:
			what += "(sign)"
			B = A - 1<<32 + diff
		case 7:
			what += "(control)"
		}
		p.A, p.B = A, B
		for i, b := range []*bulletproofs.BulletProof{&p.P1, &p.P2} {
			v, gamma := big.NewInt(v1), g1
			if i == 1 {
				v, gamma = big.NewInt(v2), g
			}
			l := newLiar(32, v, sh, lr)
			if l == nil {
				return nil, 0, ""
			}
			l.gamma = gamma
			*b = *l.all()
			w.shared["half:"+coreBP(b)] = v
		}
	case "bytes":
		b := append([]byte(nil), h.bytes...)
		for k := 0; k < 1+r.N(4); k++ {
			b[r.N(len(b))] ^= byte(1 + r.N(255))
		}
		return b, h.ctxID, what
	case "malform":
		return malformJSON(h.bytes, donorOf(w, op), op), h.ctxID, what
	default:
		return nil, 0, ""
	}
	return jsonOf(p), h.ctxID, what
}

// halvesJudge decides about an accepted message that no honest prover sent.
func halvesJudge(w *World, ctxID int, obj any, b []byte, what string) {
	p := obj.(*bulletproofs.ProofBPRP)
	v1, ok1 := w.shared["half:"+coreBP(&p.P1)].(*big.Int)
	v2, ok2 := w.shared["half:"+coreBP(&p.P2)].(*big.Int)
	if !ok1 || !ok2 {
		w.c.fail("invalid-half-accepted", "a verifier accepted a generic proof (%s) although half %d is no valid proof of the full range", what, map[bool]int{false: 1, true: 2}[ok1])
	}
	d := new(big.Int).Sub(v1, v2)
	want := new(big.Int).Sub(big.NewInt(p.A), big.NewInt(p.B))
	want.Add(want, pow2(32))
	d.Sub(d, want).Mod(d, secpN)
	if d.Sign() != 0 {
		w.c.fail("different-secrets-accepted", "a verifier accepted a generic proof (%s) whose halves are about different secrets (%v and %v for [%d, %d))", what, v1, v2, p.A, p.B)
	}
	w.c.count("altered-accepted-equivalent")
}

// ---- inner product proofs, received on their own ----

type ipProto struct{}

type ipCtx struct {
	n      int64
	params bulletproofs.InnerProductParams
	a, b   []*big.Int
}

func (ipProto) Setup(w *World, op Op) (any, error) {
	r := NewRand(hash64(w.c.plan.Seed, op.ID, "ip"))
	x := &ipCtx{n: op.n(0)}
	for i := int64(0); i < x.n; i++ {
		x.a = append(x.a, innerNumber(r, op.n(1)))
		x.b = append(x.b, innerNumber(r, op.n(1)))
	}
	var err error
	w.c.must("inner-setup", nil, func() { x.params, err = bulletproofs.VerifSetupInnerProduct(nil, nil, nil, dot(x.a, x.b), x.n) })
	if err != nil {
		w.c.fail("setup-refused", "inner product setup failed: %v", err)
	}
	return x, nil
}

// innerNumber is an element of a vector: any number, or often a special one.
func innerNumber(r *Rand, special int64) *big.Int {
	if special != 0 {
		switch r.N(8) {
		case 0:
			return new(big.Int)
		case 1:
			return big.NewInt(1)
		case 2:
			return big.NewInt(-1 - r.N64(100))
		case 3:
			return new(big.Int).Sub(secpN, big.NewInt(1))
		case 4:
			return new(big.Int).Neg(r.Big(secpN))
		case 5:
			return big.NewInt(r.Log(1 << 62))
		}
	}
	return r.Big(secpN)
}

func (ipProto) Prove(w *World, op Op, ctx any) (any, error, int) {
	x := ctx.(*ipCtx)
	var proof bulletproofs.InnerProductProof
	var err error
	w.c.must("inner-prover", w.c.stream(op, secpN), func() {
		commit := bulletproofs.VerifCommitInnerProduct(x.params.Gg, x.params.Hh, x.a, x.b)
		proof, err = bulletproofs.VerifProveInnerProduct(x.a, x.b, commit, x.params)
	})
	return &proof, err, 1
}

func (ipProto) Encode(obj any) []byte { return jsonOf(obj) }

func (ipProto) Decode(b []byte) (any, error) {
	var p bulletproofs.InnerProductProof
	if err := json.Unmarshal(b, &p); err != nil {
		return nil, err
	}
	return &p, nil
}

func (ipProto) Reencode(b []byte, style int64) []byte { return reencodeJSON(b, 1+style%5) }

func (ipProto) Recycle(dst, src any, b []byte) bool { return recycleJSON(dst, src, b) }

func (ipProto) VerifyOwn(w *World, ctx any, obj any) (bool, error) {
	return obj.(*bulletproofs.InnerProductProof).Verify()
}

func (ipProto) Verify(w *World, ctx any, obj any) (bool, error) {
	return obj.(*bulletproofs.InnerProductProof).Verify()
}

func (ipProto) Core(obj any) string { return string(jsonOf(obj)) }

func (ipProto) Tamper(w *World, op Op) ([]byte, int, string) {
	h := w.pick(op.n(1))
	if h == nil {
		return nil, 0, ""
	}
	switch op.K {
	case "malform":
		return malformJSON(h.bytes, donorOf(w, op), op), h.ctxID, op.K
	case "bytes":
		r := NewRand(uint64(op.n(4)))
		b := append([]byte(nil), h.bytes...)
		for k := 0; k < 1+r.N(4); k++ {
			b[r.N(len(b))] ^= byte(1 + r.N(255))
		}
		return b, h.ctxID, op.K
	case "mutate", "splice":
		p := deepCopy(h.obj.(*bulletproofs.InnerProductProof))
		r := NewRand(uint64(op.n(4)))
		ss := slots(p)
		var other []Slot
		if d := w.pick(op.n(2)); d != nil {
			other = slots(deepCopy(d.obj.(*bulletproofs.InnerProductProof)))
		}
		for k := int64(0); k < 1+op.n(5); k++ {
			a := int64(r.N(10))
			if op.K == "splice" {
				a = 9
			}
			mutateSlot(ss, r.N(len(ss)), a, int64(r.U64()>>1), other, secpN)
		}
		return jsonOf(p), h.ctxID, op.K
	case "negate":
		p := deepCopy(h.obj.(*bulletproofs.InnerProductProof))
		for _, x := range []*big.Int{p.A, p.B} {
			x.Sub(secpN, x)
		}
		if op.n(3)%2 == 0 {
			p.Params.P = neg(p.Params.P)
		}
		return jsonOf(p), h.ctxID, op.K
	case "forge":
		return forgeIP(w, op)
	}
	return nil, 0, ""
}

// ---- specs ----

func genC04(r *Rand, p *Plan, _ bool) {
	p.Kind = r.PickS("range", "range", "range", "generic", "inner")
	switch p.Kind {
	case "range":
		n := r.Pick(1, 2, 2, 4, 4, 8)
		if r.P(1, 20) {
			n = 32
		}
		ids := bpSetups(r, p, n)
		p.op("prove", 1000, []int64{0, ids[0]}, inRangeSecret(r, n).String())
		if r.P(1, 2) { // parts of a proof for another range may turn up in the messages
			m := r.Pick(1, 2, 4, 8, 16)
			ids := bpSetups(r, p, m)
			p.op("prove", 1000, []int64{0, ids[0]}, inRangeSecret(r, m).String())
		}
	case "generic":
		id := int64(p.op("setup", 0, []int64{18, 200}).ID)
		p.op("prove", 1000, []int64{0, id}, "40")
	case "inner":
		id := int64(p.op("setup", 0, []int64{r.Pick(1, 2, 4, 8)}).ID)
		p.op("prove", 1000, []int64{0, id})
		if r.P(1, 2) {
			id := int64(p.op("setup", 0, []int64{r.Pick(1, 2, 4, 8, 16)}).ID)
			p.op("prove", 1000, []int64{0, id})
		}
	}
	other := int64(0)
	if len(p.Ops) > 2 {
		other = 1
	}
	for i := 0; i < 12; i++ {
		k := r.PickS("malform", "malform", "malform", "malform", "mutate", "bytes")
		p.op(k, 3*rto+r.N64(4*rto), []int64{r.N64(nVerifiers), 0, other, r.Pick(0, 0, 0, 1, 1, 2, 4), int64(r.U64() >> 1), r.Pick(0, 0, 1, 2)})
	}
	// afterwards the honest message has to be accepted by the same verifiers
	p.op("prove", 8*rto, append([]int64(nil), p.Ops[1].N...), p.Ops[1].S...)
	if r.P(1, 4) {
		netFaults(r, p, nVerifiers, nProvers, true)
	}
}

// bounds of an interval
func genBounds(r *Rand, bad bool) (int64, int64) {
	var a, w int64
	switch r.N(8) {
	case 0:
		a = 0
	case 1:
		a = 18
	case 2:
		a = -r.Log(1 << 40)
	case 3:
		a = r.Log(1 << 40)
	case 4:
		a = r.Pick(-(1 << 31), -(1 << 32), 1<<31, 1<<32, (1<<32)-1, 1<<62, -(1 << 62))
	case 5:
		a = -r.Log(100)
	case 6:
		a = r.Pick(-1<<63, -1<<63+1, 1<<63-1-1<<32)
	case 7:
		a = r.Log(100)
	}
	switch r.N(6) {
	case 0:
		w = 1
	case 1:
		w = 1 << 32
	case 2:
		w = 1<<32 - 1
	case 3:
		w = 182
	case 4:
		w = 1 << uint(r.N(33))
	case 5:
		w = 1 + r.Log(1<<32-1)
	}
	if a > 1<<62 && a+w < a {
		a = 1<<63 - 1 - w
	}
	if bad {
		switch r.N(5) {
		case 0:
			return a, a
		case 1:
			if a > -1<<62 {
				return a, a - w
			}
			return a, a
		case 2:
			return 0, 1<<32 + 1 + r.Log(1<<33)
		case 3:
			return -1 << 63, 1<<63 - 1
		case 4:
			return -5, 1 << 33
		}
	}
	return a, a + w
}

// congruent returns another number that equals v modulo something that implementations compute with.
func congruent(r *Rand, v *big.Int) *big.Int {
	var m *big.Int
	switch r.N(8) {
	case 0:
		m = secpN
	case 1:
		m = p256.CURVE.P
	case 2:
		m = bnN
	case 3:
		m = pow2(r.Pick(8, 16, 31, 53, 62, 63, 65, 96, 127, 128, 255, 256, 512))
	case 4, 5:
		m = pow2(32)
	default:
		m = pow2(64)
	}
	k := r.Pick(1, 1, 1, 1, 2, 3, -1, -1, -1, -2)
	return new(big.Int).Add(v, new(big.Int).Mul(big.NewInt(k), m))
}

// secretFor picks a secret inside or outside of [a, b).
func secretFor(r *Rand, a, b int64, inside bool) *big.Int {
	A, B := big.NewInt(a), big.NewInt(b)
	w := new(big.Int).Sub(B, A)
	if inside && w.Sign() > 0 {
		switch r.N(4) {
		case 0:
			return A
		case 1:
			return new(big.Int).Sub(B, big.NewInt(1))
		case 2:
			return new(big.Int).Add(A, new(big.Int).Rsh(w, 1))
		}
		return new(big.Int).Add(A, r.Big(w))
	}
	one := big.NewInt(1)
	if w.Sign() > 0 && r.P(1, 4) { // congruent to a number inside
		return congruent(r, new(big.Int).Add(A, r.Big(w)))
	}
	switch r.N(12) {
	case 0:
		return new(big.Int).Sub(A, one)
	case 1:
		return B
	case 2:
		return new(big.Int).Add(B, one)
	case 3: // wraps around 2^32
		return new(big.Int).Add(A, pow2(32))
	case 4:
		return new(big.Int).Sub(B, pow2(32))
	case 5:
		return new(big.Int).Sub(new(big.Int).Sub(B, pow2(32)), one)
	case 6:
		return new(big.Int).Add(A, new(big.Int).Sub(pow2(32), one))
	case 7:
		return new(big.Int).Add(A, secpN)
	case 8:
		return new(big.Int).Sub(A, secpN)
	case 9:
		return new(big.Int).Sub(A, big.NewInt(1+r.Log(1<<40)))
	case 10:
		return new(big.Int).Add(B, big.NewInt(r.Log(1<<40)))
	}
	return new(big.Int).Add(B, pow2(r.Pick(63, 64, 128, 256, 300)))
}

func genC09(r *Rand, p *Plan, _ bool) {
	p.Kind = "net"
	a, b := genBounds(r, r.P(1, 8))
	id := int64(p.op("setup", 0, []int64{a, b}).ID)
	for i := 0; i < 2; i++ {
		op := p.op("prove", r.at(), []int64{r.N64(nProvers), id}, secretFor(r, a, b, r.P(1, 2)).String())
		entFaults(r, p, op.ID, 2*bpDraws(32))
	}
	netFaults(r, p, nVerifiers, nProvers, r.P(1, 2))
}

func genC10(r *Rand, p *Plan, _ bool) {
	p.Kind = "net"
	a, b := genBounds(r, false)
	if r.P(1, 2) {
		a, b = 18, 200
	}
	id := int64(p.op("setup", 0, []int64{a, b}).ID)
	p.op("prove", r.at(), []int64{0, id}, secretFor(r, a, b, true).String())
	switch r.N(3) {
	case 0: // the same interval
		p.op("prove", r.at(), []int64{1, id}, secretFor(r, a, b, true).String())
	case 1: // another one
		a2, b2 := genBounds(r, false)
		id2 := int64(p.op("setup", 0, []int64{a2, b2}).ID)
		p.op("prove", r.at(), []int64{1, id2}, secretFor(r, a2, b2, true).String())
	case 2: // a secret outside: one half is valid, the other is not
		v := secretFor(r, a, b, false)
		p.op("prove", r.at(), []int64{1, id}, v.String())
	}
	for i := 0; i < 8; i++ {
		k := r.PickS("recombine", "recombine", "recombine", "bounds", "bounds-and-half", "half-mutate", "half-mutate", "half-maul", "both-maul",
			"half-other-range", "half-full-range", "lie-halves", "tie-halves", "tie-halves", "bytes")
		if (k == "lie-halves" || k == "tie-halves") && r.P(1, 2) {
			k = "half-mutate"
		}
		p.op(k, 6*rto+r.N64(rto), []int64{r.N64(nVerifiers), r.N64(4), r.N64(4), r.N64(64), int64(r.U64() >> 1), r.Pick(0, 0, 0, 1, 2)}, secretFor(r, a, b, r.P(1, 6)).String())
	}
}

func init() {
	cfg := WorldCfg{Provers: nProvers, Verifiers: nVerifiers, CtxFree: true}
	c04 := cfg
	c04.MaxAttempts = 2
	c04.Altered = func(w *World, ctxID int, obj any, b []byte, what string) {
		w.c.count("altered-accepted-not-judged-here")
	}
	register(&Spec{ID: "C04", Gen: genC04, Quick: 1500,
		Run: map[string]func(*Ctx){
			"range":   func(c *Ctx) { runWorld(c, bpProto{}, c04) },
			"generic": func(c *Ctx) { runWorld(c, bprpProto{}, c04) },
			"inner":   func(c *Ctx) { runWorld(c, ipProto{}, c04) },
		},
		Rule: "An execution counts as non-trivial if at least one malformed or altered message reached a verifier.",
		Real: realBP, Stub: stubNet, Assume: []string{"memory is limited to 3 GB of address space per process"}})
	c09 := cfg
	c09.MaxAttempts = 3
	c09.PanicOK = true
	c09.Altered = func(w *World, ctxID int, obj any, b []byte, what string) { halvesJudge(w, ctxID, obj, b, what) }
	register(&Spec{ID: "C09", Gen: genC09, Quick: 500,
		Run:  map[string]func(*Ctx){"net": func(c *Ctx) { runWorld(c, bprpProto{}, c09) }},
		Rule: "An execution counts as non-trivial if a fault, re-encoding or chosen entropy value took effect or a prover refused a secret.",
		Real: realBP, Stub: stubNet, Assume: assumeCrypto})
	c21 := cfg
	c21.MaxAttempts = 2
	c21.PanicOK = true
	c21.Altered = func(w *World, ctxID int, obj any, b []byte, what string) {
		if strings.HasPrefix(what, "forge:") {
			w.c.fail("forged-accepted:"+what[6:], "a verifier accepted the inner-product argument of a dishonest prover (%s)", what)
		}
		p := obj.(*bulletproofs.InnerProductProof)
		truth := false
		if o := w.c.call(nil, 0, func() { truth = ipTrue(w, p) }); o.bad() != "" {
			w.c.fail("altered-accepted", "a verifier accepted a message (%s) that has no statement", what)
		}
		if truth {
			w.c.count("altered-accepted-equivalent")
			return
		}
		w.c.fail("altered-accepted", "a verifier accepted an argument (%s) for a statement that no prover made one for", what)
	}
	register(&Spec{ID: "C21", Gen: genC21, Quick: 900,
		Run:  map[string]func(*Ctx){"inner": func(c *Ctx) { runWorld(c, ipProto{}, c21) }},
		Rule: "An execution counts as non-trivial if at least one forged or altered argument reached a verifier.",
		Real: realBP, Stub: append([]string{"dishonest provers (the simulator's own implementation)"}, stubNet...), Assume: assumeCrypto})
	c10 := cfg
	c10.MaxAttempts = 1
	c10.PanicOK = true
	c10.NoIntactCheck = true
	c10.Altered = halvesJudge
	register(&Spec{ID: "C10", Gen: genC10, Quick: 350,
		Run:  map[string]func(*Ctx){"net": func(c *Ctx) { runWorld(c, bprpProto{}, c10) }},
		Rule: "An execution counts as non-trivial if at least one recombined or altered message reached a verifier.",
		Real: realBP, Stub: append([]string{"dishonest provers (the simulator's own implementation)"}, stubNet...), Assume: assumeCrypto})
}

func genC21(r *Rand, p *Plan, _ bool) {
	p.Kind = "inner"
	n := r.Pick(1, 2, 2, 4, 4, 8)
	if r.P(1, 16) {
		n = 16
	}
	id := int64(p.op("setup", 0, []int64{n, r.N64(2)}).ID)
	p.op("prove", 1000, []int64{0, id})
	if r.P(1, 2) {
		id := int64(p.op("setup", 0, []int64{r.Pick(n, n, 1, 2, 4, 8), r.N64(2)}).ID)
		p.op("prove", 1000, []int64{0, id})
	}
	first := r.N(len(ipForges))
	for i := 0; i < 8; i++ {
		p.op("forge", 6*rto+r.N64(rto), []int64{r.N64(nVerifiers), r.N64(4), int64((first + i*5) % len(ipForges)), n, int64(r.U64() >> 1)})
	}
	for i := 0; i < 6; i++ {
		p.op(r.PickS("mutate", "mutate", "mutate", "splice", "splice", "negate", "bytes"), 6*rto+r.N64(rto),
			[]int64{r.N64(nVerifiers), r.N64(4), r.N64(4), r.N64(64), int64(r.U64() >> 1), r.Pick(0, 0, 0, 1, 2)})
	}
	netFaults(r, p, nVerifiers, nProvers, true)
}

var _ = p256.CURVE
