package main

import (
	"math/big"
)

// Checks of the pairing-based proofs in the network world (C12, C13, C14).

var realCCS = []string{"ccs08 (all)", "crypto/bbsignatures", "crypto/bn256", "util", "util/bn", "util/byteconversion", "util/intconversion", "crypto/rand.Int"}
var stubCCS = append([]string{"wire format of proofs (fields in order, elements in the repository's own encoding)"}, stubNet...)

// genSet draws the members of a set.
func genSet(r *Rand) []int64 {
	n := 1 + r.N(5)
	var s []int64
	for i := 0; i < n; i++ {
		switch r.N(8) {
		case 0:
			s = append(s, 0)
		case 1:
			s = append(s, -r.Log(1<<62))
		case 2:
			s = append(s, r.Pick(1<<63-1, -1<<63, 1<<32, -1<<32, 1<<31, -1, 1))
		case 3:
			if len(s) > 0 {
				s = append(s, s[r.N(len(s))]) // repeated
			} else {
				s = append(s, -1)
			}
		case 4:
			if len(s) > 0 { // the opposite of a member
				s = append(s, -s[r.N(len(s))])
			} else {
				s = append(s, 1)
			}
		default:
			s = append(s, r.Log(1<<40))
		}
	}
	return s
}

// blinding draws the randomness of a commitment.
func blinding(r *Rand, order *big.Int) *big.Int {
	switch r.N(9) {
	case 0:
		return new(big.Int)
	case 1:
		return big.NewInt(1)
	case 2:
		return new(big.Int).Sub(order, big.NewInt(1))
	case 3:
		return new(big.Int).Set(order)
	case 4:
		return new(big.Int).Add(order, r.Big(order))
	case 5:
		return new(big.Int).Neg(r.Big(order))
	}
	return r.Big(order)
}

// entOnce makes one draw of an operation remarkable, or shortens its reads.
func entOnce(r *Rand, p *Plan, op int, draws int) {
	switch r.N(6) {
	case 0:
		p.fault("ent", int64(op), r.N64(int64(draws)), r.Pick(0, 0, 1, 2, 3, 4, 5+r.N64(256)))
	case 1:
		p.fault("ent", -int64(op), r.N64(int64(draws)), r.N64(64), r.N64(2))
	case 2:
		p.fault("ent", int64(op), r.N64(int64(draws)), r.Pick(0, 1, 2))
		p.fault("ent", int64(op), r.N64(int64(draws)), r.Pick(0, 1, 2))
	}
}

func nonMember(r *Rand, s []int64) int64 {
	for {
		var v int64
		m := s[r.N(len(s))]
		switch r.N(7) {
		case 0:
			v = m + 1
		case 1:
			v = m - 1
		case 2:
			v = -m
		case 3:
			v = m + 1<<32
		case 4:
			v = 0
		case 5:
			v = int64(r.U64())
		case 6:
			v = m ^ -1<<63
		}
		in := false
		for _, e := range s {
			in = in || e == v
		}
		if !in {
			return v
		}
	}
}

func genC12(r *Rand, p *Plan, _ bool) {
	p.Kind = "set"
	s := genSet(r)
	op := p.op("setup", 0, s)
	id := int64(op.ID)
	if r.P(1, 4) {
		entOnce(r, p, op.ID, 1)
	}
	other := r.P(1, 2)
	if other { // another issuer, of the same set or of another one
		s2 := s
		if r.P(1, 2) {
			s2 = genSet(r)
		}
		p.op("setup", 0, append([]int64(nil), s2...))
	}
	for i, n := 0, 1+r.N(2); i < n; i++ {
		o := p.op("prove", r.at(), []int64{r.N64(nProvers), id}, big.NewInt(s[r.N(len(s))]).String(), blinding(r, bnN).String())
		entOnce(r, p, o.ID, 4)
	}
	for i, n := 0, r.N(4); i < n; i++ {
		p.op("prove", r.at(), []int64{r.N64(nProvers), id}, big.NewInt(nonMember(r, s)).String(), blinding(r, bnN).String())
	}
	if other {
		p.op("other-issuer", 6*rto, []int64{r.N64(nVerifiers), r.N64(2)})
	}
	netFaults(r, p, nVerifiers, nProvers, r.P(1, 4))
}

func genC13(r *Rand, p *Plan, _ bool) {
	p.Kind = r.PickS("set", "ul")
	var id int64
	var val func() *big.Int
	if p.Kind == "set" {
		s := genSet(r)
		id = int64(p.op("setup", 0, s).ID)
		val = func() *big.Int { return big.NewInt(s[r.N(len(s))]) }
	} else {
		u, l := r.Pick(2, 2, 3, 4, 5), r.Pick(1, 2, 2, 3)
		id = int64(p.op("setup", 0, []int64{u, l}).ID)
		end := new(big.Int).Exp(big.NewInt(u), big.NewInt(l), nil)
		val = func() *big.Int { return r.Big(end) }
	}
	for i := 0; i < 2; i++ {
		p.op("prove", r.at(), []int64{0, id}, val().String(), blinding(r, bnN).String())
	}
	first := r.N(len(ccsForges))
	for i := 0; i < 7; i++ {
		k := r.PickS("mutate", "mutate", "mutate", "maul", "maul", "splice", "swap", "missing", "bytes", "forge", "forge", "forge", "forge")
		variant := r.N64(64)
		if k == "forge" {
			variant = int64((first + i*3) % len(ccsForges))
		}
		secret := r.Big(bnN) // what a forged commitment opens to
		if r.P(1, 3) {
			secret = bnMod(new(big.Int).Add(val(), big.NewInt(1<<40)))
		}
		p.op(k, 6*rto+r.N64(rto), []int64{r.N64(nVerifiers), r.N64(2), r.N64(2), variant, int64(r.U64() >> 1), r.Pick(0, 0, 0, 1, 2)}, secret.String())
	}
	if r.P(1, 4) {
		netFaults(r, p, nVerifiers, nProvers, true)
	}
}

// ulSecret draws a number inside or outside of [0, end).
func ulSecret(r *Rand, u, end *big.Int, inside bool) *big.Int {
	one := big.NewInt(1)
	if inside {
		switch r.N(5) {
		case 0:
			return new(big.Int)
		case 1:
			return new(big.Int).Sub(end, one)
		case 2: // a power of the base
			v := new(big.Int).Set(one)
			for k := r.N(6); k > 0; k-- {
				v.Mul(v, u)
			}
			return v.Mod(v, end)
		case 3:
			v := new(big.Int).Div(end, u)
			v.Sub(v, one)
			return v.Mod(v, end)
		}
		return r.Big(end)
	}
	if r.P(1, 6) {
		if v := congruent(r, r.Big(end)); v.Sign() < 0 || v.Cmp(end) >= 0 {
			return v
		}
	}
	switch r.N(8) {
	case 0:
		return big.NewInt(-1)
	case 1:
		return new(big.Int).Set(end)
	case 2:
		return new(big.Int).Add(end, one)
	case 3:
		return new(big.Int).Add(end, r.Big(end))
	case 4: // congruent modulo the range
		return new(big.Int).Add(new(big.Int).Mul(end, big.NewInt(1+r.N64(1000))), r.Big(end))
	case 5: // congruent modulo the order
		return new(big.Int).Add(bnN, r.Big(end))
	case 6:
		return new(big.Int).Sub(r.Big(end), bnN)
	}
	return new(big.Int).Neg(new(big.Int).Add(r.Big(end), one))
}

func genC14(r *Rand, p *Plan, thorough bool) {
	if r.P(1, 4) {
		genInterval(r, p, thorough)
		return
	}
	p.Kind = "ul"
	u, l := r.Pick(2, 2, 3, 3, 4, 5, 7, 10, 16), r.Pick(1, 1, 2, 2, 3, 4)
	switch r.N(12) {
	case 0:
		u, l = 2, 5+r.N64(4)
	case 1:
		u, l = 17+r.N64(60), 1
	case 2:
		l = 0
	case 3: // many digits: beyond machine words
		u, l = r.Pick(2, 2, 3, 3, 4, 5, 8, 16, 32), 9+r.N64(14)
		if r.P(1, 4) || thorough && r.P(1, 3) {
			l = 33 + r.N64(9)
			if thorough {
				l = 33 + r.N64(40)
			}
		}
	}
	op := p.op("setup", 0, []int64{u, l})
	id := int64(op.ID)
	if r.P(1, 4) {
		entOnce(r, p, op.ID, 1)
	}
	U := big.NewInt(u)
	end := new(big.Int).Exp(U, big.NewInt(l), nil)
	for i, n := 0, 1+r.N(2); i < n && l < 5 || i == 0; i++ {
		o := p.op("prove", r.at(), []int64{r.N64(nProvers), id}, ulSecret(r, U, end, true).String(), blinding(r, bnN).String())
		entOnce(r, p, o.ID, int(1+3*l))
	}
	for i, n := 0, 1+r.N(3); i < n; i++ {
		p.op("prove", r.at(), []int64{r.N64(nProvers), id}, ulSecret(r, U, end, false).String(), blinding(r, bnN).String())
	}
	netFaults(r, p, nVerifiers, nProvers, r.P(1, 4))
}

// genInterval: interval proofs; the digits are to the base 57.
func genInterval(r *Rand, p *Plan, thorough bool) {
	p.Kind = "interval"
	pow57 := func(k int) int64 {
		v := int64(1)
		for ; k > 0; k-- {
			v *= 57
		}
		return v
	}
	top := 2
	if r.P(1, 10) || thorough && r.P(1, 3) {
		top = 5
	}
	var b int64
	switch r.N(5) {
	case 0:
		b = pow57(1 + r.N(top))
	case 1:
		b = pow57(1+r.N(top)) - 1
	case 2:
		b = pow57(1+r.N(top-1)) + 1
	case 3:
		b = 2 + r.Log(pow57(top)-3)
	case 4:
		b = r.Pick(2, 3, 57, 200, 58)
	}
	long := r.P(1, 12)
	if thorough {
		long = r.P(1, 30)
	}
	if long { // many digits: beyond what floating point numbers and machine words hold exactly
		near := pow57(6+r.N(5)) + r.Pick(-1, 0, 1, 1, 1, 2, 57)
		b = r.Pick(1<<63-1, 1<<63-1, 1<<62+r.N64(1<<40), pow57(10)+1+r.N64(1<<50), near, near, near, 1<<53+1, 1<<32)
	}
	var a int64
	way := r.N(5)
	if long && r.P(1, 2) {
		way = 0
	}
	switch way {
	case 0:
		a = 0
	case 1:
		a = b - 1
	case 2:
		a = b
	case 3:
		a = r.Log(b)
	case 4:
		a = b / 2
	}
	if r.P(1, 30) { // reversed
		a = b + 1 + r.Log(100)
	}
	op := p.op("setup", 0, []int64{a, b})
	id := int64(op.ID)
	A, B := big.NewInt(a), big.NewInt(b)
	one := big.NewInt(1)
	inside := func() *big.Int {
		w := new(big.Int).Sub(B, A)
		switch r.N(3) {
		case 0:
			return A
		case 1:
			return new(big.Int).Sub(B, one)
		}
		return new(big.Int).Add(A, r.Big(w))
	}
	if a < b {
		for i := 0; i < 2 && !(long && i == 1); i++ {
			o := p.op("prove", r.at(), []int64{r.N64(nProvers), id}, inside().String(), blinding(r, bnN).String())
			entOnce(r, p, o.ID, 8)
		}
	}
	end := new(big.Int).Set(one)
	for end.Cmp(B) <= 0 {
		end.Mul(end, big.NewInt(57))
	}
	for i, n := 0, 1+r.N(4); i < n; i++ {
		var v *big.Int
		switch r.N(8) {
		case 0:
			v = new(big.Int).Sub(A, one)
		case 1:
			v = new(big.Int).Set(B)
		case 2:
			v = new(big.Int).Add(B, one)
		case 3:
			v = new(big.Int).Add(A, end)
		case 4:
			v = new(big.Int).Sub(B, end)
		case 5:
			v = new(big.Int).Add(A, bnN)
		case 6:
			v = new(big.Int).Sub(A, bnN)
		case 7:
			v = new(big.Int).Sub(new(big.Int).Add(A, end), one)
		}
		p.op("prove", r.at(), []int64{r.N64(nProvers), id}, v.String(), blinding(r, bnN).String())
	}
	for i := 0; i < 4 && a < b && !long; i++ {
		k := r.PickS("recombine", "recombine", "recombine", "splice", "maul", "mutate", "swap", "missing")
		p.op(k, 6*rto+r.N64(rto), []int64{r.N64(nVerifiers), r.N64(2), r.N64(2), r.N64(64), int64(r.U64() >> 1), 0})
	}
	if r.P(1, 3) {
		netFaults(r, p, nVerifiers, nProvers, r.P(1, 4))
	}
}

func init() {
	cfg := WorldCfg{Provers: nProvers, Verifiers: nVerifiers, MaxAttempts: 3, PanicOK: true}
	run := func(kind string, cfg WorldCfg) func(*Ctx) {
		return func(c *Ctx) { runWorld(c, ccsProto{kind}, cfg) }
	}
	live := cfg
	live.MaxAttempts, live.Live = 5, true
	register(&Spec{ID: "C12", Gen: genC12, Quick: 700,
		Run:  map[string]func(*Ctx){"set": run("set", live)},
		Rule: "An execution counts as non-trivial if a fault or chosen entropy value took effect, a non-member was refused, or a proof reached a verifier of another issuer.",
		Real: realCCS, Stub: stubCCS, Assume: assumeCrypto})
	c13 := cfg
	c13.MaxAttempts = 1
	c13.NoIntactCheck = true
	register(&Spec{ID: "C13", Gen: genC13, Quick: 360,
		Run:  map[string]func(*Ctx){"set": run("set", c13), "ul": run("ul", c13)},
		Rule: "An execution counts as non-trivial if at least one altered or fabricated message reached a verifier.",
		Real: realCCS, Stub: append([]string{"dishonest provers (the simulator's own implementation)"}, stubCCS...), Assume: assumeCrypto})
	c14 := cfg
	c14.MaxAttempts = 2
	iv := c14
	iv.Altered = intervalJudge
	iv.CtxFree = false
	register(&Spec{ID: "C14", Gen: genC14, Quick: 280,
		Run:  map[string]func(*Ctx){"ul": run("ul", c14), "interval": run("interval", iv)},
		Rule: "An execution counts as non-trivial if a fault or chosen entropy value took effect, a secret was refused, or an altered message reached a verifier.",
		Real: realCCS, Stub: stubCCS, Assume: assumeCrypto})
}
