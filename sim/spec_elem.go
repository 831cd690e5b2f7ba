package main

import (
	"bytes"
	"fmt"
	"math/big"
	"reflect"

	"github.com/ing-bank/zkrp/crypto/bbsignatures"
	"github.com/ing-bank/zkrp/crypto/bn256"
)

// Signatures (C16) and single group elements (C20) in the network world.

// ---- C16 ----

type sigMsg struct {
	Sig *bn256.G2
	M   *big.Int
}

type sigCtx struct {
	priv *big.Int
	pub  *bn256.G1
}

func (x *sigCtx) Key() string { return x.priv.String() }

type sigProto struct{}

func (sigProto) Setup(w *World, op Op) (any, error) {
	var kp bbsignatures.Keypair
	var err error
	s := w.c.stream(op, bnN)
	w.c.must("keygen", s, func() { kp, err = bbsignatures.Keygen() })
	w.c.absorb(s)
	if err != nil {
		w.c.fail("keygen-refused", "key generation reported an error although the random source works: %v", err)
	}
	if kp.Privk == nil || kp.Pubk == nil {
		w.c.fail("keygen-incomplete", "key generation returned an incomplete key pair without an error")
	}
	x := &sigCtx{priv: new(big.Int).Set(kp.Privk), pub: kp.Pubk}
	if enc := deepCopy(kp.Pubk).Marshal(); !sameAs("g1", enc, x.priv) {
		w.c.fail("keys-unrelated", "the public key is not the generator's power of the private key %v", x.priv)
	}
	w.shared[fmt.Sprint("kp", op.ID)] = kp
	return x, nil
}

// message resolves a message: a number, "-key" (the one that can not be signed), "-key+N" or "key".
func (sigProto) message(x *sigCtx, s string) *big.Int {
	switch {
	case s == "key":
		return new(big.Int).Set(x.priv)
	case s == "-key":
		return new(big.Int).Neg(x.priv)
	case s == "-key+N":
		return new(big.Int).Sub(bnN, x.priv)
	case s == "-key+2N":
		return new(big.Int).Sub(new(big.Int).Lsh(bnN, 1), x.priv)
	case s == "-key+1":
		return new(big.Int).Sub(big.NewInt(1), x.priv)
	}
	return bigOf(s)
}

func (p sigProto) Prove(w *World, op Op, ctx any) (any, error, int) {
	x := ctx.(*sigCtx)
	m := p.message(x, op.s(0))
	kp := w.shared[fmt.Sprint("kp", op.n(1))].(bbsignatures.Keypair)
	var sig *bn256.G2
	var err error
	before := m.String() + kp.Privk.String()
	w.c.must("sign", w.c.stream(op, bnN), func() { sig, err = bbsignatures.Sign(m, kp.Privk) })
	if m.String()+kp.Privk.String() != before {
		w.c.fail("sign-changed-its-input", "signing changed the message or the key")
	}
	expect := 1
	if bnAdd(m, x.priv).Sign() == 0 {
		expect = -2
		if err != nil {
			w.c.count("unsignable-refused")
		}
	}
	if err == nil && sig == nil {
		w.c.fail("no-signature", "Sign returned neither a signature nor an error")
	}
	return &sigMsg{sig, m}, err, expect
}

func (sigProto) Encode(obj any) []byte { return wireEncode(obj) }
func (sigProto) Decode(b []byte) (any, error) {
	return wireDecode(reflect.TypeOf(sigMsg{}), b)
}
func (p sigProto) Reencode(b []byte, style int64) []byte {
	o, err := p.Decode(b)
	if err != nil {
		return nil
	}
	return p.Encode(o)
}

func (sigProto) Core(obj any) string { return wireCore(obj, bnN) }

// Verify compares the verdict with the definition: the signature of m is g2^(1/(m+key)).
func (sigProto) Verify(w *World, ctx any, obj any) (bool, error) {
	x := ctx.(*sigCtx)
	s := obj.(*sigMsg)
	enc := deepCopy(s.Sig).Marshal()
	t := bnAdd(s.M, x.priv)
	want := t.Sign() != 0 && sameAs("g2", enc, bnInv(t))
	m := s.M.String()
	ok, err := bbsignatures.VerifVerify(s.Sig, s.M, x.pub)
	if ok && !want {
		w.c.fail("invalid-signature-accepted", "a signature that is not the one of message %v under key %v was accepted", s.M, x.priv)
	}
	if !ok && want {
		w.c.fail("valid-signature-rejected", "the signature of message %v under key %v was rejected (error %v)", s.M, x.priv, err)
	}
	if m != s.M.String() || !bytes.Equal(enc, s.Sig.Marshal()) || !sameAs("g1", deepCopy(x.pub).Marshal(), x.priv) {
		w.c.fail("verify-changed-its-input", "verifying changed the message, the signature or the public key")
	}
	return ok, nil
}

// Tamper: op.N = verifier, message, other message, variant, seed.
func (p sigProto) Tamper(w *World, op Op) ([]byte, int, string) {
	h, o := w.pick(op.n(1)), w.pick(op.n(2))
	if h == nil || o == nil {
		return nil, 0, ""
	}
	r := NewRand(uint64(op.n(4)))
	x := w.ctxs[h.ctxID].(*sigCtx)
	a, err1 := p.Decode(h.bytes)
	b, err2 := p.Decode(o.bytes)
	if err1 != nil || err2 != nil {
		return nil, 0, ""
	}
	m, q := a.(*sigMsg), b.(*sigMsg)
	target := h.ctxID
	switch op.K {
	case "bytes":
		b := append([]byte(nil), h.bytes...)
		for k := 0; k < 1+r.N(3); k++ {
			b[r.N(len(b))] ^= byte(1 + r.N(255))
		}
		return b, target, op.K
	case "other-key":
		ids := w.ctxIDs
		target = ids[r.N(len(ids))]
	case "other-message":
		switch op.n(3) % 9 {
		case 0:
			m.M = new(big.Int).Add(m.M, big.NewInt(1))
		case 1:
			m.M = new(big.Int).Neg(m.M)
		case 2:
			m.M = q.M
		case 3:
			m.M = new(big.Int).Add(m.M, bnN) // the same message
		case 4:
			m.M = new(big.Int).Sub(m.M, bnN)
		case 5:
			m.M = p.message(x, r.PickS("-key", "-key+N", "key", "-key+1"))
		case 6:
			m.M = r.Big(bnN)
		case 7: // the signature's other root: 1/(m+k) negated
			m.M = new(big.Int).Sub(new(big.Int).Neg(m.M), new(big.Int).Lsh(x.priv, 1))
		case 8:
			m.M = new(big.Int).Xor(m.M, pow2(r.N64(256)))
		}
	case "other-signature":
		switch op.n(3) % 6 {
		case 0:
			m.Sig = q.Sig
		case 1:
			m.Sig = g2Inf()
		case 2:
			m.Sig = new(bn256.G2).Neg(m.Sig)
		case 3:
			m.Sig = new(bn256.G2).Add(m.Sig, m.Sig)
		case 4:
			m.Sig = new(bn256.G2).ScalarBaseMult(big.NewInt(1))
		case 5:
			m.Sig = new(bn256.G2).Add(m.Sig, q.Sig)
		}
	case "identity": // the message that makes the left side of the pairing trivial
		m.M = p.message(x, "-key")
		if r.P(1, 2) {
			m.Sig = g2Inf()
		}
	default:
		return nil, 0, ""
	}
	return p.Encode(m), target, op.K
}

func genC16(r *Rand, p *Plan, _ bool) {
	p.Kind = "sig"
	var ids []int64
	for i, n := 0, 1+r.N(2); i < n; i++ {
		op := p.op("setup", 0, nil)
		ids = append(ids, int64(op.ID))
		switch r.N(3) {
		case 0:
			p.fault("ent", int64(op.ID), 0, r.Pick(0, 1, 2, 3, 4, 5+r.N64(256)))
		case 1:
			p.fault("ent", -int64(op.ID), 0, r.N64(64), r.N64(2))
		}
	}
	msg := func() string {
		switch r.N(9) {
		case 0:
			return r.PickS("-key", "-key+N", "-key+2N")
		case 1:
			return "key"
		case 2:
			return "-key+1"
		case 3:
			return new(big.Int).Neg(remarkable(r, bnN)).String()
		case 4:
			return new(big.Int).Add(bnN, remarkable(r, bnN)).String()
		case 5:
			return r.Big(pow2(600)).String()
		}
		return remarkable(r, bnN).String()
	}
	for i, n := 0, 2+r.N(4); i < n; i++ {
		p.op("prove", r.at(), []int64{r.N64(nProvers), ids[r.N(len(ids))]}, msg())
	}
	for i := 0; i < 8; i++ {
		k := r.PickS("bytes", "other-key", "other-key", "other-message", "other-message", "other-message", "other-signature", "other-signature", "identity")
		p.op(k, 6*rto+r.N64(rto), []int64{r.N64(nVerifiers), r.N64(6), r.N64(6), r.N64(64), int64(r.U64() >> 1)})
	}
	netFaults(r, p, nVerifiers, nProvers, r.P(1, 2))
}

// ---- C20 ----

type elemCtx struct {
	kind string
	g1   *bn256.G1 // receivers that are used again
	g2   *bn256.G2
	gt   *bn256.GT
	n    int
}

type elemProto struct{}

func (elemProto) Setup(w *World, op Op) (any, error) { return &elemCtx{kind: op.s(0)}, nil }

// Prove: N = prover, context, way of computing, seed; S = exponent.
func (elemProto) Prove(w *World, op Op, ctx any) (any, error, int) {
	x := ctx.(*elemCtx)
	var e *elem
	w.c.must("compute-element", nil, func() { e = recipe(x.kind, bigOf(op.s(0)), op.n(2), NewRand(uint64(op.n(3)))) })
	var b []byte
	w.c.must("encode-element", nil, func() { b = e.marshal() })
	if !sameAs(x.kind, b, e.k) {
		w.c.fail("wrong-encoding", "the encoding of the %s element with exponent %v, computed in way %d, is not its", x.kind, e.k, op.n(2))
	}
	return e, nil, 1
}

func (elemProto) Encode(obj any) []byte {
	switch v := obj.(type) {
	case *elem:
		return v.marshal()
	case []byte:
		return v
	}
	return nil
}
func (elemProto) Decode(b []byte) (any, error)          { return append([]byte(nil), b...), nil }
func (elemProto) Reencode(b []byte, style int64) []byte { return nil }
func (p elemProto) Core(obj any) string                 { return string(p.Encode(obj)) }
func (elemProto) fail(w *World, c, f string, a ...any)  { w.c.fail(c, f, a...) }
func (x *elemCtx) receiver() (reuse bool)               { x.n++; return x.n%2 == 0 }

// Verify decodes the bytes and compares with the reference model.
func (p elemProto) Verify(w *World, ctx any, obj any) (bool, error) {
	x := ctx.(*elemCtx)
	b := obj.([]byte)
	in := append([]byte(nil), b...)
	reuse := x.receiver()
	var e elem
	e.kind = x.kind
	var ok bool
	switch x.kind {
	case "g1":
		v := new(bn256.G1)
		if reuse && x.g1 != nil {
			v = x.g1
		}
		x.g1 = v
		e.g1, ok = v.Unmarshal(b)
	case "g2":
		v := new(bn256.G2)
		if reuse && x.g2 != nil {
			v = x.g2
		}
		x.g2 = v
		e.g2, ok = v.Unmarshal(b)
	case "gt":
		v := new(bn256.GT)
		if reuse && x.gt != nil {
			v = x.gt
		}
		x.gt = v
		e.gt, ok = v.Unmarshal(b)
	}
	if !bytes.Equal(in, b) {
		p.fail(w, "input-changed", "decoding changed the received bytes")
	}
	for i := range b { // the element must not depend on the buffer any more
		b[i] ^= 0xa5
	}
	if x.kind == "gt" {
		if ok {
			out := e.gt.Marshal()
			_ = e.gt.String()
			canonical := true
			for i := 0; i < len(in) && len(in) == 384; i += 32 {
				canonical = canonical && new(big.Int).SetBytes(in[i:i+32]).Cmp(refP) < 0
			}
			if canonical && !bytes.Equal(out, in) {
				p.fail(w, "round-trip", "a decoded GT element encodes to other bytes")
			}
		}
		return ok, nil
	}
	canon, identity, valid := refDecode(x.kind, in)
	if !ok {
		if valid && (identity || bytes.Equal(canon, in)) {
			p.fail(w, "valid-element-rejected", "decoding rejected the canonical encoding of a %s element: %x", x.kind, in)
		}
		return false, nil
	}
	if !valid {
		p.fail(w, "invalid-element-accepted", "decoding accepted bytes that are no element of %s: %x", x.kind, in)
	}
	// the decoded element behaves like the one that was meant
	out := e.marshal()
	if identity && !(x.kind == "g1" && isIdentityG1(out) || x.kind == "g2" && isIdentityG2(out)) || !identity && !bytes.Equal(out, canon) {
		p.fail(w, "round-trip", "a decoded %s element encodes to %x, received %x", x.kind, out, in)
	}
	var order, plus []byte
	var zero bool
	switch x.kind {
	case "g1":
		order = new(bn256.G1).ScalarMult(e.g1, bnN).Marshal()
		if !isIdentityG1(order) {
			p.fail(w, "wrong-order", "a decoded G1 element does not have the group's order")
		}
		d := new(bn256.G1).Add(e.g1, e.g1)
		plus = new(bn256.G1).Add(d, new(bn256.G1).Neg(e.g1)).Marshal()
		zero = e.g1.IsZero()
	case "g2":
		order = new(bn256.G2).ScalarMult(e.g2, bnN).Marshal()
		if !isIdentityG2(order) {
			p.fail(w, "wrong-order", "a decoded G2 element does not have the group's order")
		}
		d := new(bn256.G2).Add(e.g2, e.g2)
		plus = new(bn256.G2).Add(d, new(bn256.G2).Neg(e.g2)).Marshal()
		zero = e.g2.IsZero()
	}
	if zero != identity {
		p.fail(w, "identity-flag", "IsZero of a decoded %s element is %v", x.kind, zero)
	}
	if !bytes.Equal(plus, out) {
		p.fail(w, "unusable-element", "computing with a decoded %s element gives wrong results", x.kind)
	}
	_ = e.String()
	x.use(hash64(string(in), x.n))
	return true, nil
}

// use computes in place with the receiver that the next element may be decoded into.
func (x *elemCtx) use(h uint64) {
	k := big.NewInt(int64(h>>40) + 2)
	for n := h % 3; n > 0; n-- {
		h = mix(h)
		switch x.kind {
		case "g1":
			g := new(bn256.G1).ScalarBaseMult(k)
			switch e := x.g1; h % 7 {
			case 0, 1:
				e.Add(e, g)
			case 2:
				e.Add(g, e)
			case 3:
				e.Add(e, e)
			case 4:
				e.Neg(e)
			case 5:
				e.ScalarMult(e, k)
			case 6:
				e.SetInfinity()
			}
		case "g2":
			g := new(bn256.G2).ScalarBaseMult(k)
			switch e := x.g2; h % 7 {
			case 0, 1:
				e.Add(e, g)
			case 2:
				e.Add(g, e)
			case 3:
				e.Add(e, e)
			case 4:
				e.Neg(e)
			case 5:
				e.ScalarMult(e, k)
			case 6:
				e.SetInfinity()
			}
		}
	}
}

// Tamper: op.N = verifier, message, other message, variant, seed.
func (p elemProto) Tamper(w *World, op Op) ([]byte, int, string) {
	h := w.pick(op.n(1))
	if h == nil {
		return nil, 0, ""
	}
	x := w.ctxs[h.ctxID].(*elemCtx)
	r := NewRand(uint64(op.n(4)))
	b := append([]byte(nil), h.bytes...)
	coords := len(b) / 32
	put := func(i int, v *big.Int) { v.FillBytes(b[32*i : 32*i+32]) }
	get := func(i int) *big.Int { return new(big.Int).SetBytes(b[32*i : 32*i+32]) }
	switch op.K {
	case "flip":
		for k := 0; k < 1+r.N(3); k++ {
			b[r.N(len(b))] ^= 1 << uint(r.N(8))
		}
	case "random":
		for i := range b {
			b[i] = byte(r.U64())
		}
		if r.P(1, 2) {
			for i := 0; i < coords; i++ {
				put(i, r.Big(refP))
			}
		}
	case "length":
		switch r.N(7) {
		case 0:
			b = nil
		case 1:
			b = b[:len(b)-1]
		case 2:
			b = append(b, 0)
		case 3:
			b = b[:r.N(len(b))]
		case 4:
			b = append(b, b...)
		case 5:
			b = b[:len(b)/2]
		case 6:
			b = append([]byte{0}, b...)
		}
	case "big-coordinate": // coordinates that are not below the field size
		for k := 0; k < 1+r.N(coords); k++ {
			i := r.N(coords)
			v := get(i)
			t := new(big.Int).Add(v, new(big.Int).Mul(refP, big.NewInt(1+r.N64(4))))
			if t.BitLen() <= 256 {
				put(i, t)
			}
		}
	case "off-subgroup":
		switch x.kind {
		case "g1":
			b = curvePointBytes(r, r.Pick(3, 3, 0, 5, 7, -3))
		case "g2":
			b = twistPointBytes(r)
		}
	case "coordinate":
		i := r.N(coords)
		switch r.N(7) {
		case 0:
			put(i, new(big.Int))
		case 1:
			put(i, big.NewInt(1))
		case 2:
			put(i, new(big.Int).Sub(refP, big.NewInt(1)))
		case 3:
			put(i, refP)
		case 4:
			put(i, new(big.Int).Sub(pow2(256), big.NewInt(1)))
		case 5: // the opposite
			for j := coords / 2; j < coords; j++ {
				v := new(big.Int).Sub(refP, get(j))
				put(j, v.Mod(v, refP))
			}
		case 6:
			j := r.N(coords)
			u, v := get(i), get(j)
			put(i, v)
			put(j, u)
		}
	case "zeros":
		for i := range b {
			b[i] = 0
		}
		switch r.N(5) {
		case 0:
		case 1:
			b[len(b)-1] = 1
		case 2:
			put(r.N(coords), big.NewInt(1))
		case 3:
			for i := 0; i < coords; i++ {
				put(i, refP) // zero, not reduced
			}
		case 4:
			put(coords-1, new(big.Int).Add(refP, big.NewInt(1)))
		}
	default:
		return nil, 0, ""
	}
	return b, h.ctxID, op.K
}

func genC20(r *Rand, p *Plan, _ bool) {
	p.Kind = "elem"
	for i, n := 0, 1+r.N(2); i < n; i++ {
		kind := r.PickS("g1", "g1", "g2", "g2", "g2", "gt")
		id := int64(p.op("setup", 0, nil, kind).ID)
		for j, m := 0, 1+r.N(3); j < m; j++ {
			p.op("prove", r.at(), []int64{r.N64(nProvers), id, r.N64(24), int64(r.U64() >> 1)}, remarkable(r, bnN).String())
		}
	}
	for i := 0; i < 8; i++ {
		k := r.PickS("flip", "random", "length", "big-coordinate", "big-coordinate", "off-subgroup", "off-subgroup", "coordinate", "coordinate", "zeros")
		p.op(k, 5*rto+r.at(), []int64{r.N64(nVerifiers), r.N64(6), 0, 0, int64(r.U64() >> 1)})
	}
	// afterwards honest elements arrive again, at receivers that were used before
	for _, op := range append([]Op(nil), p.Ops...) {
		if op.K == "prove" && r.P(1, 2) {
			p.op("prove", 7*rto, append([]int64(nil), op.N...), op.S...)
		}
	}
	netFaults(r, p, nVerifiers, nProvers, true)
}

func init() {
	cfg := WorldCfg{Provers: nProvers, Verifiers: nVerifiers, MaxAttempts: 3, Live: true,
		Altered: func(w *World, ctxID int, obj any, b []byte, what string) { w.c.count("altered-but-valid") }}
	register(&Spec{ID: "C16", Gen: genC16, Quick: 700,
		Run:  map[string]func(*Ctx){"sig": func(c *Ctx) { runWorld(c, sigProto{}, cfg) }},
		Rule: "An execution counts as non-trivial if a fault or chosen entropy value took effect, a message was refused, or an altered message reached a verifier.",
		Real: []string{"crypto/bbsignatures", "crypto/bn256", "util/bn", "crypto/rand.Int"}, Stub: stubCCS,
		Assume: []string{"the reference implementation of the curve (go-ethereum's, built into the simulator) is right"}})
	register(&Spec{ID: "C20", Gen: genC20, Quick: 2400,
		Run:  map[string]func(*Ctx){"elem": func(c *Ctx) { runWorld(c, elemProto{}, cfg) }},
		Rule: "An execution counts as non-trivial if a fault took effect or altered bytes reached a receiver.",
		Real: []string{"crypto/bn256 (all)", "util/intconversion"}, Stub: stubNet,
		Assume: []string{"the reference implementation of the curve (go-ethereum's, built into the simulator) is right"}})
}
