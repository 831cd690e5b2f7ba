package main

import (
	"fmt"
	"math/big"
	"reflect"
	"strconv"

	"github.com/ing-bank/zkrp/ccs08"
	"github.com/ing-bank/zkrp/crypto/bn256"
)

// The pairing-based proofs of package ccs08 in the network world.

var bnN = bn256.Order

type ccsCtx struct {
	kind   string // set, ul, interval
	prove  func(x, r *big.Int) (any, error)
	verify func(obj any) (bool, error)
	typ    reflect.Type
	member func(x *big.Int) bool
	parts  func(obj any) []any // the membership or base-u proofs inside of a message
	params any                 // *paramsSet or *paramsUL
	u, l   int64
	a, b   int64
	set    []int64
}

func (x *ccsCtx) H() *bn256.G2 {
	h, _ := fieldAs[*bn256.G2](x.params, "H")
	return h
}

func (x *ccsCtx) pubk() *bn256.G1 {
	kp, ok := field(x.params, "kp")
	if !ok {
		return nil
	}
	k, _ := fieldAs[*bn256.G1](kp.Addr().Interface(), "Pubk")
	return k
}

func (x *ccsCtx) sig(d int64) *bn256.G2 {
	f, ok := field(x.params, "signatures")
	if !ok || f.Kind() != reflect.Map {
		return nil
	}
	var k reflect.Value
	switch f.Type().Key().Kind() {
	case reflect.Int64:
		k = reflect.ValueOf(d).Convert(f.Type().Key())
	case reflect.String:
		k = reflect.ValueOf(strconv.FormatInt(d, 10)).Convert(f.Type().Key())
	default:
		return nil
	}
	v := f.MapIndex(k)
	if !v.IsValid() {
		return nil
	}
	s, _ := v.Interface().(*bn256.G2)
	return s
}

// Key identifies what a proof is verified against.
func (x *ccsCtx) Key() string {
	k := x.pubk()
	s := "?"
	if k != nil {
		s = fmt.Sprintf("%x", k.Marshal())
	}
	return fmt.Sprint(s, ":", x.kind, x.u, ",", x.l, ",", x.a, ",", x.b)
}

type ccsProto struct{ kind string }

// verifierOf: in half of the executions the parameters of all issuers are put into one variable
// when they are needed.
func verifierOf[T, P any](w *World, f func(*T, *P) (bool, error), params *P) func(any) (bool, error) {
	if w.c.plan.Seed/2%2 == 0 {
		return func(o any) (bool, error) { return f(o.(*T), params) }
	}
	own, ok := w.shared["params"].(*P)
	if !ok {
		own = new(P)
		w.shared["params"] = own
	}
	return func(o any) (bool, error) {
		*own = *params
		return f(o.(*T), own)
	}
}

func setProverOf[P, T any](f func(int64, *big.Int, P) (T, error), params P) func(x, r *big.Int) (any, error) {
	return func(x, r *big.Int) (any, error) {
		p, err := f(x.Int64(), r, params)
		return &p, err
	}
}

func ulProverOf[P, T any](f func(x, r *big.Int, params P) (T, error), params P) func(x, r *big.Int) (any, error) {
	return func(x, r *big.Int) (any, error) {
		p, err := f(x, r, params)
		return &p, err
	}
}

func resultType3[A, B, C, R any](f func(A, B, C) (R, error)) reflect.Type {
	var r R
	return reflect.TypeOf(r)
}

var (
	tProofSet = resultType3(ccs08.ProveSet)
	tProofUL  = resultType3(ccs08.ProveUL)
	tCCS      = reflect.TypeOf(ccs08.VerifCCS08{})
)

func self(obj any) []any { return []any{obj} }

// ulParts finds the base-u proofs inside of an interval proof object.
func ulParts(obj any) []any {
	var out []any
	var walk func(v reflect.Value, depth int)
	walk = func(v reflect.Value, depth int) {
		v = open(v)
		if v.Type() == tProofUL {
			out = append(out, v.Addr().Interface())
			return
		}
		if depth > 4 {
			return
		}
		switch v.Kind() {
		case reflect.Struct:
			for i := 0; i < v.NumField(); i++ {
				walk(v.Field(i), depth+1)
			}
		case reflect.Ptr:
			if !v.IsNil() && v.Type() != tBig {
				walk(v.Elem(), depth+1)
			}
		}
	}
	walk(reflect.ValueOf(obj).Elem(), 0)
	return out
}

// bare is the interval proof without what must not be sent.
func bareInterval(z *ccs08.VerifCCS08) *ccs08.VerifCCS08 {
	c := deepCopy(z)
	ccs08.VerifSetSecret(c, new(big.Int), new(big.Int))
	return c
}

func (p ccsProto) hasEnt(w *World, op Op) bool {
	for _, f := range w.c.faults("ent") {
		if f.n(0) == int64(op.ID) {
			return true
		}
	}
	return false
}

// Setup: set: N = elements; ul: N = u, l; interval: N = a, b.
func (p ccsProto) Setup(w *World, op Op) (any, error) {
	x := &ccsCtx{kind: p.kind}
	s := w.c.stream(op, bnN)
	var err error
	w.c.must("issuer-setup", s, func() {
		switch p.kind {
		case "set":
			members := append([]int64(nil), op.N...)
			params, e := ccs08.SetupSet(members)
			for i := range members { // the caller's again
				members[i] = int64(NewRand(w.c.plan.Seed).U64())
			}
			if err = e; e != nil {
				return
			}
			pp, vp := deepCopy(params), deepCopy(params)
			x.params = &params
			x.prove = setProverOf(ccs08.ProveSet, pp)
			x.verify = verifierOf(w, ccs08.VerifySet, &vp)
			x.typ, x.parts = tProofSet, self
			x.set = op.N
		case "ul":
			params, e := ccs08.SetupUL(op.n(0), op.n(1))
			if err = e; e != nil {
				return
			}
			pp, vp := deepCopy(params), deepCopy(params)
			x.params = &params
			x.prove = ulProverOf(ccs08.ProveUL, pp)
			x.verify = verifierOf(w, ccs08.VerifyUL, &vp)
			x.typ, x.parts = tProofUL, self
			x.u, x.l = op.n(0), op.n(1)
		case "interval":
			var z ccs08.VerifCCS08
			if err = z.Setup(op.n(0), op.n(1)); err != nil {
				return
			}
			x.a, x.b = op.n(0), op.n(1)
			x.typ, x.parts = tCCS, ulParts
			x.prove = func(v, r *big.Int) (any, error) {
				q := deepCopy(&z)
				ccs08.VerifSetSecret(q, v, r)
				e := q.Prove()
				return bareInterval(q), e
			}
			vz := deepCopy(&z)
			x.verify = func(o any) (bool, error) {
				q := o.(*ccs08.VerifCCS08)
				if f, ok := field(q, "p"); ok { // the verifier's own parameters
					if g, ok := field(vz, "p"); ok {
						f.Set(g)
					}
				}
				return q.Verify()
			}
			if f, ok := field(&z, "p"); ok && f.Kind() == reflect.Ptr && !f.IsNil() {
				if g, ok := field(f.Interface(), "p"); ok && g.Kind() == reflect.Ptr {
					x.params = g.Interface()
					x.u, _ = fieldAs[int64](x.params, "u")
					x.l, _ = fieldAs[int64](x.params, "l")
				}
			}
		}
	})
	w.c.absorb(s)
	if err != nil {
		valid := true
		if p.kind == "interval" {
			valid = op.n(0) <= op.n(1) && op.n(1) > 1
		}
		if valid && !p.hasEnt(w, op) {
			w.c.fail("setup-refused", "%s setup %v failed: %v", p.kind, op.N, err)
		}
		w.c.count("setup-refused")
		return nil, err
	}
	switch p.kind {
	case "set":
		x.member = func(v *big.Int) bool {
			for _, e := range x.set {
				if v.Cmp(big.NewInt(e)) == 0 {
					return true
				}
			}
			return false
		}
	case "ul":
		x.member = func(v *big.Int) bool { return v.Sign() >= 0 && v.Cmp(x.end()) < 0 }
	case "interval":
		x.member = func(v *big.Int) bool { return v.Cmp(big.NewInt(x.a)) >= 0 && v.Cmp(big.NewInt(x.b)) < 0 }
	}
	return x, nil
}

// end is u^l
func (x *ccsCtx) end() *big.Int {
	return new(big.Int).Exp(big.NewInt(x.u), big.NewInt(x.l), nil)
}

// Prove: N = prover, context; S = secret, commitment randomness.
func (p ccsProto) Prove(w *World, op Op, ctx any) (any, error, int) {
	x := ctx.(*ccsCtx)
	v, r := w.number(op, "secret", bigOf(op.s(0))), w.number(op, "randomness", bigOf(op.s(1)))
	s := w.c.stream(op, bnN)
	var obj any
	var err error
	w.c.must(p.kind+"-prover", s, func() { obj, err = x.prove(v, r) })
	w.c.absorb(s)
	if err == nil && obj != nil {
		for _, q := range x.parts(obj) {
			wireLearn(reflect.ValueOf(q).Elem(), "")
		}
	}
	expect := -1
	if p.kind == "set" {
		expect = -2
	}
	if x.member(v) {
		expect = 1
	}
	if err == nil && p.kind == "interval" && expect == 1 && x.u > 0 {
		hv := x.halfValues(v)
		for i, q := range x.parts(obj) {
			if i < 2 {
				w.shared["half:"+wireCore(q, bnN)] = hv[i]
			}
		}
	}
	w.reuse(op, v, r)
	return obj, err, expect
}

// halfValues are the numbers the two halves of an interval proof commit to.
func (x *ccsCtx) halfValues(v *big.Int) [2]*big.Int {
	v1 := new(big.Int).Sub(v, big.NewInt(x.b))
	return [2]*big.Int{v1.Add(v1, x.end()), new(big.Int).Sub(v, big.NewInt(x.a))}
}

// The messages of interval proofs consist of their two base-u proofs.
func (p ccsProto) Encode(obj any) []byte { return p.encode(obj, "\x00") }

func (p ccsProto) encode(obj any, null string) []byte {
	if p.kind == "interval" {
		var out []byte
		for _, q := range ulParts(obj) {
			b := wireEncodeNull(q, null)
			out = append(out, byte(len(b)>>24), byte(len(b)>>16), byte(len(b)>>8), byte(len(b)))
			out = append(out, b...)
		}
		return out
	}
	return wireEncodeNull(obj, null)
}

func (p ccsProto) Decode(b []byte) (any, error) {
	switch p.kind {
	case "set":
		return wireDecode(tProofSet, b)
	case "ul":
		return wireDecode(tProofUL, b)
	}
	z := new(ccs08.VerifCCS08)
	ccs08.VerifSetSecret(z, new(big.Int), new(big.Int))
	for _, q := range ulParts(z) {
		if len(b) < 4 {
			return nil, errWire
		}
		n := int(b[0])<<24 | int(b[1])<<16 | int(b[2])<<8 | int(b[3])
		b = b[4:]
		if n > len(b) {
			return nil, errWire
		}
		o, err := wireDecode(tProofUL, b[:n])
		if err != nil {
			return nil, err
		}
		reflect.ValueOf(q).Elem().Set(reflect.ValueOf(o).Elem())
		b = b[n:]
	}
	if len(b) != 0 {
		return nil, errWire
	}
	return z, nil
}

func (p ccsProto) Reencode(b []byte, style int64) []byte {
	o, err := p.Decode(b)
	if err != nil {
		return nil
	}
	return p.Encode(o)
}

func (p ccsProto) Verify(w *World, ctx any, obj any) (bool, error) {
	return ctx.(*ccsCtx).verify(deepCopyAny(obj))
}

// Recycle overwrites an object that was verified before with the contents of another one. What an
// object of the type does not have before its first verification stays: it is the verifier's own.
func (p ccsProto) Recycle(dst, src any, b []byte) bool {
	ds, ss := ulParts(dst), ulParts(src)
	if p.kind != "interval" {
		ds, ss = []any{dst}, []any{src}
	}
	if len(ds) != len(ss) {
		return false
	}
	for i := range ds {
		d, s := reflect.ValueOf(ds[i]).Elem(), reflect.ValueOf(ss[i]).Elem()
		if d.Type() != s.Type() {
			return false
		}
		for k := 0; k < d.NumField(); k++ {
			if f := open(s.Field(k)); !f.IsZero() {
				open(d.Field(k)).Set(f)
			}
		}
	}
	return true
}

func (p ccsProto) VerifyOwn(w *World, ctx any, obj any) (bool, error) {
	return ctx.(*ccsCtx).verify(obj)
}

func deepCopyAny(x any) any {
	v := reflect.ValueOf(x)
	out := reflect.New(v.Type()).Elem()
	copyInto(out, addressable(v), map[unsafePtr]reflect.Value{})
	return out.Interface()
}

func (p ccsProto) Core(obj any) string {
	if p.kind == "interval" {
		s := ""
		for _, q := range ulParts(obj) {
			s += wireCore(q, bnN) + "|"
		}
		return s
	}
	return wireCore(obj, bnN)
}

// Tamper: op.N = verifier, message, other message, variant, seed, extra; op.S[0] = a false secret.
func (p ccsProto) Tamper(w *World, op Op) ([]byte, int, string) {
	h, o := w.pick(op.n(1)), w.pick(op.n(2))
	if h == nil || o == nil {
		return nil, 0, ""
	}
	r := NewRand(uint64(op.n(4)))
	what := op.K
	x := w.ctxs[h.ctxID].(*ccsCtx)
	switch op.K {
	case "bytes":
		b := append([]byte(nil), h.bytes...)
		for k := 0; k < 1+r.N(3); k++ {
			b[r.N(len(b))] ^= byte(1 + r.N(255))
		}
		return b, h.ctxID, what
	case "other-issuer":
		for _, id := range w.ctxIDs {
			if id != h.ctxID && w.ctxs[id].(*ccsCtx).Key() != x.Key() {
				return h.bytes, id, what
			}
		}
		return nil, 0, ""
	}
	obj, err := p.Decode(h.bytes)
	oth, err2 := p.Decode(o.bytes)
	if err != nil || err2 != nil {
		return nil, 0, ""
	}
	parts, oparts := x.parts(obj), x.parts(oth)
	if len(parts) == 0 || len(oparts) == 0 {
		return nil, 0, ""
	}
	pi := r.N(len(parts))
	part, opart := parts[pi], oparts[r.N(len(oparts))]
	ok, null := true, "\x00"
	bad := w.c.call(NewStream(w.c.plan.Seed, op.ID, "adversary"), 0, func() {
		switch op.K {
		case "mutate":
			ss := slots(part)
			for k := int64(0); k < 1+op.n(5); k++ {
				mutateSlot(ss, r.N(len(ss)), int64(r.N(10)), int64(r.U64()>>1), slots(opart), bnN)
			}
		case "missing":
			var ps []Slot
			for _, s := range slots(part) {
				if s.V.Kind() == reflect.Ptr && !s.V.IsNil() {
					ps = append(ps, s)
				}
			}
			for k := 0; k < 1+r.N(2)*r.N(2) && len(ps) > 0; k++ {
				s := ps[r.N(len(ps))]
				s.V.Set(reflect.Zero(s.V.Type()))
			}
			null = wireNull
		case "swap":
			ok = swapSlots(slots(part), r) != ""
		case "splice":
			spliceFields(part, opart, r)
		case "maul":
			name := ccsMauls[int(op.n(3))%len(ccsMauls)]
			what += "(" + name + ")"
			ok = maulCCS(w.c, x, part, name, r)
		case "forge":
			name := ccsForges[int(op.n(3))%len(ccsForges)]
			what += ":" + name
			ok = forgeCCS(w.c, x, part, name, bigOf(op.s(0)), func() { x.verify(deepCopyAny(obj)) }, r)
		case "recombine":
			if len(parts) < 2 || len(oparts) < 2 {
				ok = false
				return
			}
			set := func(i int, q any) { reflect.ValueOf(parts[i]).Elem().Set(reflect.ValueOf(q).Elem()) }
			switch op.n(3) % 6 {
			case 0:
				set(0, oparts[0])
			case 1:
				set(1, oparts[1])
			case 2:
				set(0, deepCopyAny(parts[1]))
			case 3:
				set(1, deepCopyAny(parts[0]))
			case 4:
				a, b := deepCopyAny(parts[0]), deepCopyAny(parts[1])
				set(0, b)
				set(1, a)
			case 5: // a valid base-u proof about something else
				v := r.Big(x.end())
				params := x.params
				q, e := proveULWith(params, v, r.Big(bnN))
				if e != nil || q == nil {
					ok = false
					return
				}
				set(r.N(2), q)
				w.shared["half:"+wireCore(q, bnN)] = v
			}
		default:
			ok = false
		}
	})
	if bad.bad() != "" {
		w.c.count("adversary-gave-up")
		return nil, 0, ""
	}
	if !ok {
		return nil, 0, ""
	}
	var b []byte
	enc := w.c.call(nil, 0, func() { b = p.encode(obj, null) })
	if enc.bad() != "" {
		return nil, 0, ""
	}
	return b, h.ctxID, what
}

// proveULWith calls ProveUL with parameters of its unexported type.
func proveULWith(params any, v, r *big.Int) (any, error) {
	return callUL(ccs08.ProveUL, params, v, r)
}

func callUL[P, T any](f func(x, r *big.Int, p P) (T, error), params any, v, r *big.Int) (any, error) {
	pp, ok := params.(*P)
	if !ok {
		return nil, errWire
	}
	q, err := f(v, r, *pp)
	return &q, err
}

// intervalJudge decides about an accepted interval message that no honest prover sent.
func intervalJudge(w *World, ctxID int, obj any, b []byte, what string) {
	x := w.ctxs[ctxID].(*ccsCtx)
	parts := x.parts(obj)
	if len(parts) != 2 || x.u == 0 {
		return
	}
	v1, ok1 := w.shared["half:"+wireCore(parts[0], bnN)].(*big.Int)
	v2, ok2 := w.shared["half:"+wireCore(parts[1], bnN)].(*big.Int)
	if !ok1 || !ok2 {
		w.c.fail("invalid-half-accepted", "a verifier accepted an interval proof (%s) one half of which is no valid base-u proof", what)
	}
	want := new(big.Int).Sub(x.end(), big.NewInt(x.b))
	want.Add(want, big.NewInt(x.a))
	d := new(big.Int).Sub(v1, v2)
	d.Sub(d, want).Mod(d, bnN)
	if d.Sign() != 0 {
		w.c.fail("different-secrets-accepted", "a verifier accepted an interval proof (%s) whose halves are about different secrets", what)
	}
	w.c.count("altered-accepted-equivalent")
}
