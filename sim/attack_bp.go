package main

import (
	"crypto/sha256"
	"errors"
	"math/big"
	"strings"

	"github.com/ing-bank/zkrp/bulletproofs"
	"github.com/ing-bank/zkrp/crypto/p256"
)

// Dishonest provers of range proofs. They know the verifier's code: which elements the challenges
// bind is learned by observing honest proofs, so that an attack works whenever it can.

type pt = *p256.P256

// shape tells which of V, A, S, T1, T2 (0..4) the challenges y, z and x are computed from.
type shape struct {
	yz, x   []int
	variant int // 0: (y,z) = (r1,r2); 1: (r1,r1); 2: (r2,r1)
	known   bool
	asked   *asked // the verifier has to be asked
}

// asked finds challenges by running the verifier on a proof with other points and looking at its hashes.
type asked struct {
	p       *bulletproofs.BulletProof
	y, z, x int
}

func (a *asked) digests(ps []pt) [][]byte {
	p := deepCopy(a.p)
	for i, f := range []*pt{&p.V, &p.A, &p.S, &p.T1, &p.T2} {
		*f = ps[i]
	}
	return digests(func() { p.Verify() })
}

func (a *asked) number(ps []pt, i int) *big.Int {
	if d := a.digests(ps); i < len(d) {
		return new(big.Int).SetBytes(d[i])
	}
	return big.NewInt(1)
}

// ask looks for the challenges among the hashes of an honest proof's verification that depend on the proof.
func ask(p *bulletproofs.BulletProof, good func(y, z, x *big.Int) bool) *asked {
	a := &asked{p: deepCopy(p)}
	d := a.digests([]pt{p.V, p.A, p.S, p.T1, p.T2})
	e := a.digests([]pt{mulG(big.NewInt(5)), mulG(big.NewInt(6)), mulG(big.NewInt(7)), mulG(big.NewInt(8)), mulG(big.NewInt(9))})
	var cand []int
	var xs []*big.Int
	for i := 0; i < len(d) && i < len(e) && len(cand) < 8; i++ {
		if string(d[i]) != string(e[i]) {
			cand, xs = append(cand, i), append(xs, new(big.Int).SetBytes(d[i]))
		}
	}
	for i := range cand {
		for j := range cand {
			for k := range cand {
				if good(xs[i], xs[j], xs[k]) {
					a.y, a.z, a.x = cand[i], cand[j], cand[k]
					return a
				}
			}
		}
	}
	return nil
}

var defaultShape = shape{yz: []int{0, 1, 2}, x: []int{0, 1, 2, 3, 4}}

func hashPoints(ps []pt) (r1, r2 *big.Int) {
	if f, ok := any(bulletproofs.HashBP).(func(...*p256.P256) (*big.Int, *big.Int, error)); ok {
		r1, r2, _ = f(ps...)
		return
	}
	var b strings.Builder
	for _, p := range ps {
		b.WriteString(p.X.String())
		b.WriteString(p.Y.String())
	}
	h := sha256.Sum256([]byte(b.String()))
	r1 = new(big.Int).SetBytes(h[:])
	b.WriteString(r1.String())
	h = sha256.Sum256([]byte(b.String()))
	return r1, new(big.Int).SetBytes(h[:])
}

func sel(ps []pt, idx []int) []pt {
	var out []pt
	for _, i := range idx {
		out = append(out, ps[i])
	}
	return out
}

func (s shape) chYZ(ps []pt) (y, z *big.Int) {
	if s.asked != nil {
		return s.asked.number(ps, s.asked.y), s.asked.number(ps, s.asked.z)
	}
	r1, r2 := hashPoints(sel(ps, s.yz))
	switch s.variant {
	case 1:
		return r1, r1
	case 2:
		return r2, r1
	}
	return r1, r2
}

func (s shape) chX(ps []pt) *big.Int {
	if s.asked != nil {
		return s.asked.number(ps, s.asked.x)
	}
	r1, _ := hashPoints(sel(ps, s.x))
	return r1
}

func orderedSubsets(n int) [][]int {
	var out [][]int
	var rec func(cur []int, used int)
	rec = func(cur []int, used int) {
		out = append(out, append([]int(nil), cur...))
		for i := 0; i < n; i++ {
			if used&(1<<uint(i)) == 0 {
				rec(append(cur, i), used|1<<uint(i))
			}
		}
	}
	rec(nil, 0)
	return out
}

func delta(y, z *big.Int, n int64) *big.Int {
	// (z - z^2) <1,y^n> - z^3 <1,2^n>
	sy := new(big.Int)
	for _, p := range powers(y, n) {
		sy = addN(sy, p)
	}
	z2 := mulN(z, z)
	d := mulN(new(big.Int).Sub(z, z2), sy)
	s2 := new(big.Int).Sub(pow2(n), big.NewInt(1))
	return modN(new(big.Int).Sub(d, mulN(mulN(z2, z), s2)))
}

func powers(y *big.Int, n int64) []*big.Int {
	out := make([]*big.Int, n)
	c := big.NewInt(1)
	for i := range out {
		out[i] = c
		c = mulN(c, y)
	}
	return out
}

func hGen() pt { h, _ := p256.MapToGroup(bulletproofs.SEEDH); return h }

func eqP(a, b pt) bool { return pointString(a) == pointString(b) }

// recoverShape finds how an honest proof's challenges were computed, from condition (65).
func recoverShape(p *bulletproofs.BulletProof) shape {
	ps := []pt{p.V, p.A, p.S, p.T1, p.T2}
	lhs := addP(mulG(p.Tprime), mulP(hGen(), p.Taux))
	// the usual shape first
	good := func(y, z, x *big.Int) bool {
		rhs := addP(mulP(p.V, mulN(z, z)), mulG(delta(y, z, p.Params.N)))
		rhs = addP(rhs, addP(mulP(p.T1, x), mulP(p.T2, mulN(x, x))))
		return eqP(lhs, rhs)
	}
	test := func(s shape) bool {
		y, z := s.chYZ(ps)
		return good(y, z, s.chX(ps))
	}
	if test(defaultShape) {
		s := defaultShape
		s.known = true
		return s
	}
	if a := ask(p, good); a != nil {
		s := defaultShape
		s.asked, s.known = a, true
		return s
	}
	type half struct {
		s   []int
		v   int
		pnt pt
	}
	left := map[string]half{}
	for _, s := range orderedSubsets(3) {
		for v := 0; v < 3; v++ {
			sh := shape{yz: s, variant: v}
			y, z := sh.chYZ(ps)
			q := addP(mulP(p.V, mulN(z, z)), mulG(delta(y, z, p.Params.N)))
			left[pointString(addP(lhs, neg(q)))] = half{s: s, v: v}
		}
	}
	for _, s := range orderedSubsets(5) {
		x := shape{x: s}.chX(ps)
		q := addP(mulP(p.T1, x), mulP(p.T2, mulN(x, x)))
		if h, ok := left[pointString(q)]; ok {
			return shape{yz: h.s, x: s, variant: h.v, known: true}
		}
	}
	return defaultShape
}

var shapeCache *shape

func (c *Ctx) shapeOf(p *bulletproofs.BulletProof) shape {
	s := recoverShape(p)
	if s.known {
		c.count("challenge-shape-recovered")
	} else {
		c.count("challenge-shape-unknown")
	}
	return s
}

// ---- public re-randomisations (mauls) of an honest proof ----

type mauler struct {
	name string
	f    func(p *bulletproofs.BulletProof, y, z, x, d *big.Int)
}

func inv(x *big.Int) *big.Int {
	i := new(big.Int).ModInverse(modN(x), secpN)
	if i == nil {
		return new(big.Int)
	}
	return i
}

func shift(p pt, base pt, d *big.Int) pt { return addP(p, mulP(base, d)) }

var mauls = []mauler{
	{"(V,taux)", func(p *bulletproofs.BulletProof, y, z, x, d *big.Int) {
		p.V = shift(p.V, hGen(), d)
		p.Taux = addN(p.Taux, mulN(d, mulN(z, z)))
	}},
	{"(T1,taux)", func(p *bulletproofs.BulletProof, y, z, x, d *big.Int) {
		p.T1 = shift(p.T1, hGen(), d)
		p.Taux = addN(p.Taux, mulN(d, x))
	}},
	{"(T2,taux)", func(p *bulletproofs.BulletProof, y, z, x, d *big.Int) {
		p.T2 = shift(p.T2, hGen(), d)
		p.Taux = addN(p.Taux, mulN(d, mulN(x, x)))
	}},
	{"(A,mu)", func(p *bulletproofs.BulletProof, y, z, x, d *big.Int) {
		p.A = shift(p.A, hGen(), d)
		p.Mu = addN(p.Mu, d)
	}},
	{"(S,mu)", func(p *bulletproofs.BulletProof, y, z, x, d *big.Int) {
		p.S = shift(p.S, hGen(), d)
		p.Mu = addN(p.Mu, mulN(d, x))
	}},
	{"(V,T1)", func(p *bulletproofs.BulletProof, y, z, x, d *big.Int) {
		p.V = shift(p.V, mulG(big.NewInt(1)), d)
		p.T1 = shift(p.T1, mulG(big.NewInt(1)), modN(new(big.Int).Neg(mulN(d, mulN(mulN(z, z), inv(x))))))
	}},
	{"(V,T2)", func(p *bulletproofs.BulletProof, y, z, x, d *big.Int) {
		p.V = shift(p.V, mulG(big.NewInt(1)), d)
		p.T2 = shift(p.T2, mulG(big.NewInt(1)), modN(new(big.Int).Neg(mulN(d, mulN(mulN(z, z), inv(mulN(x, x)))))))
	}},
	{"(T1,T2)", func(p *bulletproofs.BulletProof, y, z, x, d *big.Int) {
		p.T1 = shift(p.T1, mulG(big.NewInt(1)), d)
		p.T2 = shift(p.T2, mulG(big.NewInt(1)), modN(new(big.Int).Neg(mulN(d, inv(x)))))
	}},
	{"(A,S)", func(p *bulletproofs.BulletProof, y, z, x, d *big.Int) {
		p.A = shift(p.A, hGen(), d)
		p.S = shift(p.S, hGen(), modN(new(big.Int).Neg(mulN(d, inv(x)))))
	}},
	{"(Commit,mu)", func(p *bulletproofs.BulletProof, y, z, x, d *big.Int) {
		p.Commit = shift(p.Commit, hGen(), d)
		p.Mu = modN(new(big.Int).Sub(p.Mu, d))
	}},
	{"(V,tprime)", func(p *bulletproofs.BulletProof, y, z, x, d *big.Int) {
		p.V = shift(p.V, mulG(big.NewInt(1)), d)
		p.Tprime = addN(p.Tprime, mulN(d, mulN(z, z)))
	}},
	{"(T1,tprime)", func(p *bulletproofs.BulletProof, y, z, x, d *big.Int) {
		p.T1 = shift(p.T1, mulG(big.NewInt(1)), d)
		p.Tprime = addN(p.Tprime, mulN(d, x))
	}},
	{"(A,Commit)", func(p *bulletproofs.BulletProof, y, z, x, d *big.Int) {
		p.A = shift(p.A, mulG(big.NewInt(1)), d)
		p.Commit = shift(p.Commit, mulG(big.NewInt(1)), d)
	}},
	{"(taux,mu)", func(p *bulletproofs.BulletProof, y, z, x, d *big.Int) {
		p.Taux = addN(p.Taux, d)
		p.Mu = modN(new(big.Int).Sub(p.Mu, d))
	}},
	{"(a,b)", func(p *bulletproofs.BulletProof, y, z, x, d *big.Int) {
		p.InnerProductProof.A = mulN(p.InnerProductProof.A, d)
		p.InnerProductProof.B = mulN(p.InnerProductProof.B, inv(d))
	}},
	{"(-mu,-Commit,-a,-b)", func(p *bulletproofs.BulletProof, y, z, x, d *big.Int) {
		m := func(v *big.Int) *big.Int { return modN(new(big.Int).Neg(v)) }
		p.Mu, p.Commit = m(p.Mu), neg(p.Commit)
		p.InnerProductProof.A, p.InnerProductProof.B = m(p.InnerProductProof.A), m(p.InnerProductProof.B)
	}},
	{"(-taux,-tprime)", func(p *bulletproofs.BulletProof, y, z, x, d *big.Int) {
		m := func(v *big.Int) *big.Int { return modN(new(big.Int).Neg(v)) }
		p.Taux, p.Tprime = m(p.Taux), m(p.Tprime)
		if d.Bit(0) == 0 {
			p.InnerProductProof.A = m(p.InnerProductProof.A)
		}
	}},
	{"(-V,-T1,-T2,-taux,-tprime)", func(p *bulletproofs.BulletProof, y, z, x, d *big.Int) {
		m := func(v *big.Int) *big.Int { return modN(new(big.Int).Neg(v)) }
		p.V, p.T1, p.T2, p.Taux, p.Tprime = neg(p.V), neg(p.T1), neg(p.T2), m(p.Taux), m(p.Tprime)
	}},
	{"(-A,-S,-mu,-Commit)", func(p *bulletproofs.BulletProof, y, z, x, d *big.Int) {
		m := func(v *big.Int) *big.Int { return modN(new(big.Int).Neg(v)) }
		p.A, p.S, p.Mu, p.Commit = neg(p.A), neg(p.S), m(p.Mu), neg(p.Commit)
		if d.Bit(0) == 0 {
			p.InnerProductProof.A, p.InnerProductProof.B = m(p.InnerProductProof.A), m(p.InnerProductProof.B)
		}
	}},
	{"(-point)", func(p *bulletproofs.BulletProof, y, z, x, d *big.Int) {
		ps := []*pt{&p.V, &p.A, &p.S, &p.T1, &p.T2, &p.Commit}
		ip := &p.InnerProductProof
		for i := range ip.Ls {
			ps = append(ps, &ip.Ls[i], &ip.Rs[i])
		}
		q := ps[new(big.Int).Mod(d, big.NewInt(int64(len(ps)))).Int64()]
		*q = neg(*q)
	}},
	{"(pair)", mauledPair},
	{"(pair)", mauledPair},
	{"(pair)", mauledPair},
	{"(taux,mu)", mauledAnswers},
	{"(taux,mu)", mauledAnswers},
	{"(taux,mu)", mauledAnswers},
	{"(taux,mu)", mauledAnswers},
	{"(Ls,Rs)", func(p *bulletproofs.BulletProof, y, z, x, d *big.Int) {
		p.InnerProductProof.Ls, p.InnerProductProof.Rs = p.InnerProductProof.Rs, p.InnerProductProof.Ls
		p.InnerProductProof.A, p.InnerProductProof.B = p.InnerProductProof.B, p.InnerProductProof.A
	}},
}

// mauledPair shifts two elements along the same base so that the sum of the two verification
// equations, their difference, or the one both appear in still holds.
func mauledPair(p *bulletproofs.BulletProof, y, z, x, d *big.Int) {
	neg1 := func(v *big.Int) *big.Int { return modN(new(big.Int).Neg(v)) }
	one := big.NewInt(1)
	type term struct {
		p *pt       // a point ...
		s **big.Int // ... or a scalar
		w *big.Int
	}
	var ts []term
	r := NewRand(d.Uint64() ^ p.Mu.Uint64())
	onH := r.P(1, 2)
	base := mulG(one)
	if onH {
		base = hGen()
	}
	z2, x2 := mulN(z, z), mulN(x, x)
	ts = append(ts, term{p: &p.V, w: z2}, term{p: &p.T1, w: modN(x)}, term{p: &p.T2, w: x2}, term{p: &p.Commit, w: one}, term{p: &p.A, w: neg1(one)}, term{p: &p.S, w: neg1(x)})
	if onH {
		ts = append(ts, term{s: &p.Taux, w: neg1(one)}, term{s: &p.Mu, w: one}, term{s: &p.Taux, w: neg1(one)}, term{s: &p.Mu, w: one})
	} else {
		ts = append(ts, term{s: &p.Tprime, w: neg1(one)}, term{s: &p.Tprime, w: neg1(one)})
	}
	by := func(t term, d *big.Int) {
		d = mulN(d, inv(t.w))
		if t.p != nil {
			*t.p = shift(*t.p, base, d)
		} else {
			*t.s = addN(*t.s, d)
		}
	}
	i := r.N(len(ts))
	j := r.N(len(ts))
	for j == i {
		j = r.N(len(ts))
	}
	by(ts[i], d)
	d = mulN(d, sumWeight(r, y, z, x))
	if r.P(3, 4) {
		by(ts[j], neg1(d))
	} else {
		by(ts[j], d)
	}
}

// sumWeight is the factor with which a careless verifier could add two equations.
func sumWeight(r *Rand, y, z, x *big.Int) *big.Int {
	if r.P(1, 2) {
		return big.NewInt(1)
	}
	f := []*big.Int{x, x, y, z, mulN(z, z), mulN(x, x), big.NewInt(2), big.NewInt(3)}[r.N(8)]
	if r.P(1, 3) {
		f = inv(f)
	}
	return modN(f)
}

// mauledAnswers shifts the two blinding answers, which no challenge covers.
func mauledAnswers(p *bulletproofs.BulletProof, y, z, x, d *big.Int) {
	r := NewRand(d.Uint64() ^ p.Mu.Uint64())
	p.Taux = addN(p.Taux, d)
	d = mulN(d, sumWeight(r, y, z, x))
	if r.P(1, 2) {
		d = modN(new(big.Int).Neg(d))
	}
	p.Mu = addN(p.Mu, d)
}

func maul(c *Ctx, p *bulletproofs.BulletProof, which int, r *Rand) bool {
	s := c.shapeOf(p)
	ps := []pt{p.V, p.A, p.S, p.T1, p.T2}
	y, z := s.chYZ(ps)
	x := s.chX(ps)
	d := new(big.Int).Add(r.Big(new(big.Int).Sub(secpN, big.NewInt(2))), big.NewInt(1))
	if r.P(1, 4) {
		d = big.NewInt(1 + r.N64(5))
	}
	before := coreBP(p)
	mauls[which%len(mauls)].f(p, y, z, x, d)
	return coreBP(p) != before
}

// ---- a prover of its own, with deviations ----

type liar struct {
	n                             int64
	v                             *big.Int // what V opens to
	G, H                          pt
	Gg, Hh                        []pt
	aL, aR, sL, sR                []*big.Int
	gamma, alpha, rho, tau1, tau2 *big.Int
	sh                            shape
	V, A, S, T1, T2, Commit       pt
	y, z, x, t0, t1, t2           *big.Int
	l, r                          []*big.Int
	tprime, taux, mu              *big.Int
	hprime                        []pt
	params                        bulletproofs.BulletProofSetupParams
}

func vecCommit(h pt, a *big.Int, g []pt, x []*big.Int, hh []pt, y []*big.Int) pt {
	out := mulP(h, a)
	for i := range g {
		out = addP(out, addP(mulP(g[i], x[i]), mulP(hh[i], y[i])))
	}
	return out
}

func dot(a, b []*big.Int) *big.Int {
	s := new(big.Int)
	for i := range a {
		s = addN(s, mulN(a[i], b[i]))
	}
	return s
}

func newLiar(n int64, v *big.Int, sh shape, r *Rand) *liar {
	params, err := bulletproofs.Setup(rangeEnd(n))
	if err != nil {
		return nil
	}
	l := &liar{n: n, v: modN(v), G: params.G, H: params.H, Gg: params.Gg, Hh: params.Hh, sh: sh, params: params}
	for i := int64(0); i < n; i++ {
		bit := big.NewInt(int64(modN(v).Bit(int(i))))
		l.aL = append(l.aL, bit)
		l.aR = append(l.aR, modN(new(big.Int).Sub(bit, big.NewInt(1))))
		l.sL = append(l.sL, r.Big(secpN))
		l.sR = append(l.sR, r.Big(secpN))
	}
	l.gamma, l.alpha, l.rho, l.tau1, l.tau2 = r.Big(secpN), r.Big(secpN), r.Big(secpN), r.Big(secpN), r.Big(secpN)
	return l
}

func (l *liar) points() []pt {
	ps := []pt{l.V, l.A, l.S, l.T1, l.T2}
	for i := range ps {
		if ps[i] == nil {
			ps[i] = mulG(big.NewInt(1)) // not chosen yet: a stand-in
		}
	}
	return ps
}

func (l *liar) com(v, g *big.Int) pt { return addP(mulP(l.G, v), mulP(l.H, g)) }
func (l *liar) doV()                 { l.V = l.com(l.v, l.gamma) }
func (l *liar) doA()                 { l.A = vecCommit(l.H, l.alpha, l.Gg, l.aL, l.Hh, l.aR) }
func (l *liar) doS()                 { l.S = vecCommit(l.H, l.rho, l.Gg, l.sL, l.Hh, l.sR) }
func (l *liar) doYZ() {
	l.y, l.z = l.sh.chYZ(l.points())
	l.y, l.z = modN(l.y), modN(l.z)
}

// poly computes l(X), r(X) and the coefficients of t(X).
func (l *liar) poly() (l0, r0, r1 []*big.Int) {
	yn := powers(l.y, l.n)
	z2 := mulN(l.z, l.z)
	for i := int64(0); i < l.n; i++ {
		l0 = append(l0, modN(new(big.Int).Sub(l.aL[i], l.z)))
		r0 = append(r0, addN(mulN(yn[i], addN(l.aR[i], l.z)), mulN(z2, pow2(i))))
		r1 = append(r1, mulN(yn[i], l.sR[i]))
	}
	l.t0 = dot(l0, r0)
	l.t1 = addN(dot(l0, r1), dot(l.sL, r0))
	l.t2 = dot(l.sL, r1)
	return
}

func (l *liar) doT1() { l.T1 = l.com(l.t1, l.tau1) }
func (l *liar) doT2() { l.T2 = l.com(l.t2, l.tau2) }
func (l *liar) doX()  { l.x = modN(l.sh.chX(l.points())) }

func (l *liar) answer() {
	l0, r0, r1 := l.poly()
	l.l, l.r = nil, nil
	for i := range l0 {
		l.l = append(l.l, addN(l0[i], mulN(l.sL[i], l.x)))
		l.r = append(l.r, addN(r0[i], mulN(r1[i], l.x)))
	}
	l.tprime = dot(l.l, l.r)
	z2, x2 := mulN(l.z, l.z), mulN(l.x, l.x)
	l.taux = addN(addN(mulN(l.tau2, x2), mulN(l.tau1, l.x)), mulN(z2, l.gamma))
	l.mu = addN(l.alpha, mulN(l.rho, l.x))
	l.doHprime()
	l.Commit = bulletproofs.VerifCommitInnerProduct(l.Gg, l.hprime, l.l, l.r)
}

func (l *liar) doHprime() {
	l.hprime = nil
	yi := inv(l.y)
	for i, e := range powers(yi, l.n) {
		if i == 0 {
			l.hprime = append(l.hprime, l.Hh[0])
			continue
		}
		l.hprime = append(l.hprime, mulP(l.Hh[i], e))
	}
}

// want65 is the tprime that satisfies condition (65) given the openings.
func (l *liar) want65() *big.Int {
	t := addN(mulN(mulN(l.z, l.z), l.v), delta(l.y, l.z, l.n))
	return addN(t, addN(mulN(l.t1, l.x), mulN(l.t2, mulN(l.x, l.x))))
}

// left67 is A.S^x.g^-z.h'^(z.y^n+z^2.2^n).h^-mu
func (l *liar) left67() pt {
	out := addP(l.A, mulP(l.S, l.x))
	yn := powers(l.y, l.n)
	mz := modN(new(big.Int).Neg(l.z))
	for i := int64(0); i < l.n; i++ {
		out = addP(out, mulP(l.Gg[i], mz))
		out = addP(out, mulP(l.hprime[i], addN(mulN(l.z, yn[i]), mulN(mulN(l.z, l.z), pow2(i)))))
	}
	return addP(out, mulP(l.H, modN(new(big.Int).Neg(l.mu))))
}

func (l *liar) ip(commit pt, a, b []*big.Int, c *big.Int, g, h []pt) bulletproofs.InnerProductProof {
	params, err := bulletproofs.VerifSetupInnerProduct(l.H, g, h, c, l.n)
	if err != nil {
		return bulletproofs.InnerProductProof{}
	}
	p, _ := bulletproofs.VerifProveInnerProduct(a, b, commit, params)
	return p
}

func (l *liar) proof(ip bulletproofs.InnerProductProof) *bulletproofs.BulletProof {
	p := &bulletproofs.BulletProof{V: l.V, A: l.A, S: l.S, T1: l.T1, T2: l.T2, Taux: l.taux, Mu: l.mu, Tprime: l.tprime,
		InnerProductProof: ip, Commit: l.Commit, Params: l.params}
	p.Params.InnerProductParams = ip.Params
	return p
}

func (l *liar) finish() *bulletproofs.BulletProof {
	return l.proof(l.ip(l.Commit, l.l, l.r, l.tprime, l.Gg, l.hprime))
}

// solveA makes the committed bits satisfy <l0,r0> = z^2.v + delta for the known y, z.
func (l *liar) solveA() {
	want := addN(mulN(mulN(l.z, l.z), l.v), delta(l.y, l.z, l.n))
	l.aR[0] = new(big.Int)
	l.poly()
	d := modN(new(big.Int).Sub(want, l.t0))
	// t0 is linear in aR[0] with coefficient (aL[0]-z)
	l.aR[0] = mulN(d, inv(new(big.Int).Sub(l.aL[0], l.z)))
	l.poly()
}

var liarNames = []string{"plain", "non-bit", "tprime-lie", "eq65-skip", "eq67-skip", "ip-garbage", "ip-unrelated", "ip-other-c",
	"own-H", "own-Gg", "own-Hh", "own-all", "yz-equal", "y-const", "z-const", "V-late", "V-after-yz", "A-late", "S-late", "T1-late", "T2-late",
	"identity-T", "identity-all", "short-range", "long-ip", "zero-challenge", "G-late", "scaled", "own-G", "ip-own-gens", "ip-L-late", "ip-R-late", "U-in-A", "related-gens", "own-U", "ip-P-own"}

// forgeBP makes the message of a dishonest prover: op.N = verifier, honest message to observe,
// strategy, bits, seed; op.S[0] = the number that V commits to.
func forgeBP(w *World, op Op) ([]byte, int, string) {
	h := w.pick(op.n(1))
	if h == nil {
		return nil, 0, ""
	}
	r := NewRand(uint64(op.n(4)))
	sh := w.c.shapeOf(h.obj.(*bulletproofs.BulletProof))
	name := liarNames[int(op.n(2))%len(liarNames)]
	v := bigOf(op.s(0))
	n := op.n(3)
	p := lie(name, n, v, sh, r, h.obj.(*bulletproofs.BulletProof))
	if p == nil {
		return nil, 0, ""
	}
	return jsonOf(p), h.ctxID, "forge:" + name
}

// all follows the protocol.
func (l *liar) all() *bulletproofs.BulletProof {
	l.doV()
	l.doA()
	l.doS()
	l.doYZ()
	l.poly()
	l.doT1()
	l.doT2()
	l.doX()
	l.answer()
	return l.finish()
}

func lie(name string, n int64, v *big.Int, sh shape, r *Rand, honest *bulletproofs.BulletProof) *bulletproofs.BulletProof {
	l := newLiar(n, v, sh, r)
	if l == nil {
		return nil
	}
	all := l.all
	nonbit := func() {
		// the top digit carries the excess
		i := int(n - 1)
		rest := new(big.Int)
		for k := 0; k < i; k++ {
			rest.Add(rest, new(big.Int).Mul(l.aL[k], pow2(int64(k))))
		}
		l.aL[i] = mulN(new(big.Int).Sub(l.v, rest), inv(pow2(int64(i))))
		l.aR[i] = modN(new(big.Int).Sub(l.aL[i], big.NewInt(1)))
	}
	switch name {
	case "plain", "eq65-skip":
		return all()
	case "non-bit":
		nonbit()
		if r.P(1, 2) {
			l.aR[n-1] = new(big.Int) // hide it in aL.aR = 0
		}
		return all()
	case "tprime-lie":
		nonbit()
		all()
		l.tprime = l.want65()
		return l.proof(l.ip(l.Commit, l.l, l.r, dot(l.l, l.r), l.Gg, l.hprime))
	case "eq67-skip":
		all()
		want := l.want65()
		l.tprime = want
		// other vectors with the wanted product
		for i := range l.l {
			l.l[i], l.r[i] = new(big.Int), r.Big(secpN)
		}
		l.l[0], l.r[0] = big.NewInt(1), want
		l.Commit = bulletproofs.VerifCommitInnerProduct(l.Gg, l.hprime, l.l, l.r)
		return l.finish()
	case "ip-garbage":
		all()
		l.tprime = l.want65()
		ip := l.ip(l.Commit, l.l, l.r, dot(l.l, l.r), l.Gg, l.hprime)
		if honest.Params.N == n && r.P(1, 2) {
			ip = deepCopy(honest.InnerProductProof)
		}
		switch r.N(3) {
		case 0:
			ip.A, ip.B = new(big.Int), new(big.Int)
		case 1:
			ip.Params.Cc = l.tprime
		}
		return l.proof(ip)
	case "ip-unrelated", "ip-other-c", "ip-own-gens":
		nonbit()
		all()
		l.tprime = l.want65()
		a, b := make([]*big.Int, n), make([]*big.Int, n)
		for i := range a {
			a[i], b[i] = r.Big(secpN), r.Big(secpN)
		}
		a[0], b[0] = big.NewInt(1), new(big.Int)
		b[0] = modN(new(big.Int).Sub(l.tprime, dot(a[1:], b[1:])))
		g, h := l.Gg, l.hprime
		if name == "ip-own-gens" {
			g, h = nil, nil
			for i := int64(0); i < n; i++ {
				g = append(g, mulG(r.Big(secpN)))
				h = append(h, mulG(r.Big(secpN)))
			}
		}
		c := l.tprime
		if name == "ip-other-c" {
			a, b, c = l.l, l.r, dot(l.l, l.r)
		}
		ip := l.ip(bulletproofs.VerifCommitInnerProduct(g, h, a, b), a, b, c, g, h)
		if r.P(1, 3) {
			ip.Params.Cc = l.tprime
		}
		return l.proof(ip)
	case "own-H", "own-all", "own-Gg", "own-Hh", "own-G":
		k := r.Big(secpN)
		switch name {
		case "own-H", "own-all":
			l.H = mulG(k)
			l.params.H = l.H
		case "own-G":
			l.G = mulP(l.H, k)
			l.params.G = l.G
		}
		if name == "own-Gg" || name == "own-all" {
			l.Gg = append([]pt{}, l.Gg...)
			for i := range l.Gg {
				l.Gg[i] = mulG(r.Big(secpN))
			}
			l.params.Gg = l.Gg
		}
		if name == "own-Hh" || name == "own-all" {
			l.Hh = append([]pt{}, l.Hh...)
			for i := range l.Hh {
				l.Hh[i] = mulP(l.Gg[i], r.Big(secpN))
			}
			l.params.Hh = l.Hh
		}
		if name == "own-Gg" || name == "own-Hh" {
			// with h_i = g_i^k the vectors can be chosen after the challenges
			k = big.NewInt(3)
			l.Hh = append([]pt{}, l.Hh...)
			l.Gg = append([]pt{}, l.Gg...)
			for i := range l.Hh {
				if name == "own-Hh" {
					l.Hh[i] = mulP(l.params.Gg[i], k)
				} else {
					l.Gg[i] = mulP(l.params.Hh[i], inv(k))
				}
			}
			l.params.Hh, l.params.Gg = l.Hh, l.Gg
			all()
			want := l.want65()
			// move weight between l[0] and r[0]: g0^l h0^r is g0^(l + k r)
			s := addN(l.l[0], mulN(k, l.r[0]))
			rest := new(big.Int)
			if n > 1 {
				rest = dot(l.l[1:], l.r[1:])
			}
			// (s - k r) r + rest = want  =>  k r^2 - s r + (want - rest) = 0
			c0 := modN(new(big.Int).Sub(want, rest))
			disc := modN(new(big.Int).Sub(mulN(s, s), mulN(big.NewInt(4), mulN(k, c0))))
			if q := new(big.Int).ModSqrt(disc, secpN); q != nil {
				l.r[0] = mulN(addN(s, q), inv(new(big.Int).Lsh(k, 1)))
				l.l[0] = modN(new(big.Int).Sub(s, mulN(k, l.r[0])))
			}
			l.tprime = dot(l.l, l.r)
			return l.finish()
		}
		nonbit()
		all()
		// open the right hand side of (65) as g^tprime.h^taux: with known logarithms any tprime fits
		d := modN(new(big.Int).Sub(l.want65(), l.tprime))
		if name == "own-G" {
			l.taux = addN(l.taux, mulN(d, k))
		} else {
			l.taux = addN(l.taux, mulN(d, inv(k)))
		}
		return l.finish()
	case "yz-equal":
		if n < 2 {
			return nil
		}
		for i := range l.aL {
			l.aL[i], l.aR[i] = new(big.Int), modN(big.NewInt(-1))
		}
		l.aR[1] = modN(new(big.Int).Sub(big.NewInt(-1), l.v))
		return all()
	case "y-const":
		if n < 2 {
			return nil
		}
		l.doV()
		l.doYZ() // with stand-ins
		for i := range l.aL {
			l.aL[i], l.aR[i] = new(big.Int), modN(big.NewInt(-1))
		}
		l.aL[0], l.aR[0] = l.v, new(big.Int)
		l.aR[1] = addN(big.NewInt(-1), mulN(new(big.Int).Sub(l.v, big.NewInt(1)), inv(l.y)))
		return all()
	case "z-const":
		l.doV()
		l.doYZ()
		for i := range l.aL {
			l.aL[i], l.aR[i] = new(big.Int), modN(big.NewInt(-1))
		}
		l.aR[0] = modN(new(big.Int).Sub(big.NewInt(-1), mulN(l.z, l.v)))
		return all()
	case "V-late", "V-after-yz":
		for i := range l.aL {
			l.aL[i], l.aR[i] = r.Big(secpN), r.Big(secpN)
		}
		l.doA()
		l.doS()
		l.doYZ()
		l.poly()
		fix := func(t0 *big.Int) {
			l.v = mulN(new(big.Int).Sub(t0, delta(l.y, l.z, n)), inv(mulN(l.z, l.z)))
			l.doV()
		}
		if name == "V-after-yz" {
			fix(l.t0)
		}
		l.doT1()
		l.doT2()
		l.doX()
		l.answer()
		if name == "V-late" {
			fix(l.t0)
		}
		return l.finish()
	case "A-late":
		l.doV()
		l.doS()
		l.doYZ()
		l.solveA()
		l.doA()
		l.doT1()
		l.doT2()
		l.doX()
		l.answer()
		return l.finish()
	case "S-late":
		nonbit()
		l.doV()
		l.doA()
		l.doYZ()
		l.poly()
		l.t1, l.t2 = r.Big(secpN), r.Big(secpN)
		l.doT1()
		l.doT2()
		l.doX()
		want := l.want65()
		t1, t2 := l.t1, l.t2
		// adapt sR[0] so that <l(x),r(x)> = want
		l.sR[0] = new(big.Int)
		l.answer()
		d := modN(new(big.Int).Sub(want, l.tprime))
		l.sR[0] = mulN(d, inv(mulN(l.l[0], l.x)))
		l.t1, l.t2 = t1, t2
		l.doS()
		l.answer()
		l.t1, l.t2 = t1, t2
		return l.finish()
	case "T1-late", "T2-late":
		nonbit()
		l.doV()
		l.doA()
		l.doS()
		l.doYZ()
		l.poly()
		if name == "T1-late" {
			l.doT2()
		} else {
			l.doT1()
		}
		l.doX()
		l.answer()
		d := modN(new(big.Int).Sub(l.tprime, l.want65()))
		if name == "T1-late" {
			l.t1 = addN(l.t1, mulN(d, inv(l.x)))
			l.doT1()
		} else {
			l.t2 = addN(l.t2, mulN(d, inv(mulN(l.x, l.x))))
			l.doT2()
		}
		return l.finish()
	case "G-late":
		all()
		l.taux = addN(l.taux, r.Big(secpN))
		l.tprime = l.want65()
		return l.finish()
	case "identity-T":
		all()
		l.T1, l.T2 = new(p256.P256), new(p256.P256)
		l.doX()
		l.answer()
		l.t1, l.t2 = new(big.Int), new(big.Int)
		l.tau1, l.tau2 = new(big.Int), new(big.Int)
		l.taux = mulN(mulN(l.z, l.z), l.gamma)
		l.tprime = l.want65()
		return l.finish()
	case "identity-all":
		all()
		inf := func() pt { return new(p256.P256) }
		p := l.finish()
		p.A, p.S, p.T1, p.T2, p.Commit = inf(), inf(), inf(), inf(), inf()
		p.Taux, p.Mu, p.Tprime = new(big.Int), new(big.Int), new(big.Int)
		p.InnerProductProof.A, p.InnerProductProof.B = new(big.Int), new(big.Int)
		for i := range p.InnerProductProof.Ls {
			p.InnerProductProof.Ls[i], p.InnerProductProof.Rs[i] = inf(), inf()
		}
		p.InnerProductProof.U, p.InnerProductProof.P = inf(), inf()
		if r.P(1, 2) {
			for i := range p.Params.Gg {
				p.Params.Gg[i], p.Params.Hh[i] = inf(), inf()
			}
			p.Params.G, p.Params.H = inf(), inf()
		}
		return p
	case "short-range":
		// a valid proof of a longer range that claims a shorter one
		if n >= 32 {
			return nil
		}
		big2 := newLiar(2*n, new(big.Int).Add(pow2(n), new(big.Int).Mod(v, pow2(n))), sh, r)
		l = big2
		p := all()
		p.Params.N = n
		switch r.N(4) {
		case 0:
			p.InnerProductProof.N = n
		case 1:
			p.InnerProductProof.N, p.InnerProductProof.Params.N = n, n
			p.Params.Gg, p.Params.Hh = p.Params.Gg[:n], p.Params.Hh[:n]
		case 2:
			p.Params.Gg, p.Params.Hh = p.Params.Gg[:n], p.Params.Hh[:n]
		}
		return p
	case "long-ip":
		// an argument with a shorter or longer recursion
		nonbit()
		p := all()
		ip := &p.InnerProductProof
		p.Tprime = l.want65()
		if r.P(1, 2) && len(ip.Ls) > 0 {
			ip.Ls, ip.Rs = ip.Ls[1:], ip.Rs[1:]
		} else {
			ip.Ls, ip.Rs = append(ip.Ls, mulG(r.Big(secpN))), append(ip.Rs, mulG(r.Big(secpN)))
		}
		return p
	case "ip-L-late", "ip-R-late":
		// the first round's L (or R) is chosen after the challenge
		if n < 2 {
			return nil
		}
		nonbit()
		all()
		l.tprime = l.want65()
		ip := l.ip(l.Commit, l.l, l.r, l.tprime, l.Gg, l.hprime)
		if !l.forgeRounds(&ip, name == "ip-R-late", l.oracle(honest), r) {
			return nil
		}
		return l.proof(ip)
	case "ip-P-own":
		// an argument about other vectors, over the verifier's u, next to the right commitment
		nonbit()
		all()
		l.tprime = l.want65()
		a, b := append([]*big.Int{}, l.l...), append([]*big.Int{}, l.r...)
		if r.P(1, 2) {
			a[0] = addN(a[0], r.Big(secpN))
		}
		ip := l.ip(l.Commit, l.l, l.r, l.tprime, l.Gg, l.hprime)
		if !l.foldOther(&ip, a, b, l.oracle(honest)) {
			return nil
		}
		return l.proof(ip)
	case "U-in-A":
		// a first digit that is no bit; A contains a power of u that makes up for it
		rest := new(big.Int)
		for k := 1; k < int(n); k++ {
			rest.Add(rest, new(big.Int).Mul(l.aL[k], pow2(int64(k))))
		}
		l.aL[0] = modN(new(big.Int).Sub(l.v, rest))
		l.aR[0] = modN(new(big.Int).Sub(l.aL[0], big.NewInt(1)))
		U, err := p256.MapToGroup(bulletproofs.SEEDU)
		if err != nil {
			return nil
		}
		l.doV()
		l.doA()
		l.A = addP(l.A, mulP(U, mulN(l.aL[0], l.aR[0])))
		l.doS()
		l.doYZ()
		l.poly()
		l.doT1()
		l.doT2()
		l.doX()
		l.answer()
		l.tprime = l.want65()
		l.Commit = l.left67()
		return l.finish()
	case "own-U":
		// the inner product argument over a u of the prover's choice (neutral, or a known power of a
		// generator), for the honest commitment and the inner product that condition (65) wants
		nonbit()
		all()
		want := l.want65()
		l.tprime = want
		params, err := bulletproofs.VerifSetupInnerProduct(l.H, l.Gg, l.hprime, want, n)
		if err != nil {
			return nil
		}
		honestUu := params.Uu
		a := append([]*big.Int{}, l.l...)
		params.Uu = new(p256.P256).SetInfinity()
		if r.P(2, 3) {
			k := r.Big(secpN)
			params.Uu = mulP(l.Gg[0], k)
			x, err := hashIP(l.Gg, l.hprime, l.Commit, want, n)
			if err != nil {
				return nil
			}
			kx := mulN(k, modN(x))
			rest := modN(new(big.Int).Sub(dot(a, l.r), mulN(a[0], l.r[0])))
			a[0] = mulN(addN(a[0], mulN(kx, modN(new(big.Int).Sub(want, rest)))), inv(addN(big.NewInt(1), mulN(kx, l.r[0]))))
		}
		ip, _ := bulletproofs.VerifProveInnerProduct(a, l.r, l.Commit, params)
		if r.P(1, 2) {
			ip.Params.Uu = honestUu
		}
		return l.proof(ip)
	case "related-gens":
		if !l.related(nonbit, func() { all() }, r) {
			return nil
		}
		return l.finish()
	case "zero-challenge":
		l.G, l.H = mulG(big.NewInt(1)), l.params.H
		l.doV()
		l.doA()
		l.doS()
		l.y, l.z, l.x = big.NewInt(1), new(big.Int), new(big.Int)
		l.poly()
		l.doT1()
		l.doT2()
		l.answer()
		return l.finish()
	case "scaled":
		p := deepCopy(honest)
		k := big.NewInt(2 + r.N64(5))
		p.V, p.T1, p.T2 = mulP(p.V, k), mulP(p.T1, k), mulP(p.T2, k)
		p.Tprime, p.Taux = mulN(p.Tprime, k), mulN(p.Taux, k)
		if r.P(1, 2) {
			p.A, p.S, p.Commit, p.Mu = mulP(p.A, k), mulP(p.S, k), mulP(p.Commit, k), mulN(p.Mu, k)
			p.InnerProductProof.A = mulN(p.InnerProductProof.A, k)
			p.InnerProductProof.B = mulN(p.InnerProductProof.B, k)
		}
		return p
	}
	return nil
}

// oracle finds the challenges of the rounds among the hashes of an honest proof's verification.
func (l *liar) oracle(p *bulletproofs.BulletProof) hashOracle {
	if p.Params.N != l.n {
		return hashOracle{}
	}
	y, _ := l.sh.chYZ([]pt{p.V, p.A, p.S, p.T1, p.T2})
	q := &liar{n: p.Params.N, Hh: p.Params.Hh, y: modN(y)}
	q.doHprime()
	p = deepCopy(p)
	return learn(&p.InnerProductProof, p.Params.Gg, q.hprime, func() { p.Verify() })
}

// ask gives the verifier's challenges for a message with this argument.
func (l *liar) ask(o hashOracle, ip bulletproofs.InnerProductProof) (x0 *big.Int, xs []*big.Int) {
	p := deepCopy(l.proof(ip))
	d := digests(func() { p.Verify() })
	if !o.known || len(d) != o.total || o.x0 < 0 {
		return nil, nil
	}
	return o.number(d[o.x0]), o.rounds(d, len(ip.Ls))
}

// forgeRounds replaces the rounds of an argument by ones that fit if a challenge does not depend on R (or L).
func (l *liar) forgeRounds(ip *bulletproofs.InnerProductProof, late bool, o hashOracle, r *Rand) bool {
	for i := range ip.Ls {
		ip.Ls[i], ip.Rs[i] = mulG(r.Big(secpN)), mulG(r.Big(secpN))
	}
	ip.A, ip.B = r.Big(secpN), r.Big(secpN)
	x0, xs := l.ask(o, *ip)
	if xs == nil {
		return false
	}
	u := mulP(uuPoint(), x0)
	i := r.N(len(xs))
	x2 := mulN(xs[i], xs[i])
	if late {
		ip.Rs[i] = new(p256.P256).SetInfinity()
	} else {
		ip.Ls[i] = new(p256.P256).SetInfinity()
	}
	need := neg(foldRest(addP(l.Commit, mulP(u, l.tprime)), ip.Ls, ip.Rs, l.Gg, l.hprime, u, ip.A, ip.B, xs))
	if late {
		ip.Rs[i] = mulP(need, x2)
	} else {
		ip.Ls[i] = mulP(need, inv(x2))
	}
	return true
}

// foldOther replaces the argument by one for vectors a, b whose P' is not the verifier's.
func (l *liar) foldOther(ip *bulletproofs.InnerProductProof, a, b []*big.Int, o hashOracle) bool {
	x0, xs := l.ask(o, *ip)
	if x0 == nil || xs == nil && len(ip.Ls) > 0 {
		return false
	}
	u := mulP(uuPoint(), x0)
	P := addP(bulletproofs.VerifCommitInnerProduct(l.Gg, l.hprime, a, b), mulP(u, dot(a, b)))
	g, h := l.Gg, l.hprime
	for i := range ip.Ls {
		m := len(a) / 2
		ip.Ls[i] = addP(bulletproofs.VerifCommitInnerProduct(g[m:], h[:m], a[:m], b[m:]), mulP(u, dot(a[:m], b[m:])))
		ip.Rs[i] = addP(bulletproofs.VerifCommitInnerProduct(g[:m], h[m:], a[m:], b[:m]), mulP(u, dot(a[m:], b[:m])))
		if _, xs = l.ask(o, *ip); xs == nil {
			return false
		}
		x, xi := xs[i], inv(xs[i])
		var g2, h2 []pt
		var a2, b2 []*big.Int
		for k := 0; k < m; k++ {
			g2 = append(g2, addP(mulP(g[k], xi), mulP(g[m+k], x)))
			h2 = append(h2, addP(mulP(h[k], x), mulP(h[m+k], xi)))
			a2 = append(a2, addN(mulN(a[k], x), mulN(a[m+k], xi)))
			b2 = append(b2, addN(mulN(b[k], xi), mulN(b[m+k], x)))
		}
		g, h, a, b = g2, h2, a2, b2
	}
	ip.A, ip.B, ip.U = a[0], b[0], u
	ip.Params.P, ip.P = P, P
	return true
}

// related exploits generators that are equal or opposite: weight can be moved between them.
func (l *liar) related(nonbit, all func(), r *Rand) bool {
	type base struct {
		p pt
		k string
		i int
	}
	bases := []base{{l.H, "H", 0}}
	for i := range l.Gg {
		bases = append(bases, base{l.Gg[i], "g", i}, base{l.Hh[i], "h", i})
	}
	seen := map[string]int{}
	a, b, opposite := -1, -1, false
	for i, q := range bases {
		if j, ok := seen[pointString(q.p)]; ok {
			a, b = j, i
			break
		}
		if j, ok := seen[pointString(neg(q.p))]; ok {
			a, b, opposite = j, i, true
			break
		}
		seen[pointString(q.p)] = i
	}
	if a < 0 {
		return false
	}
	nonbit()
	all()
	want := l.want65()
	L, R, mu := l.l, l.r, l.mu
	yn := powers(l.y, l.n)
	move := func(d *big.Int) {
		l.l, l.r, l.mu = append([]*big.Int{}, L...), append([]*big.Int{}, R...), mu
		put := func(q base, d *big.Int) {
			switch q.k {
			case "H":
				l.mu = addN(l.mu, d)
			case "g":
				l.l[q.i] = addN(l.l[q.i], d)
			case "h":
				l.r[q.i] = addN(l.r[q.i], mulN(d, yn[q.i]))
			}
		}
		put(bases[a], d)
		if !opposite {
			d = modN(new(big.Int).Neg(d))
		}
		put(bases[b], d)
	}
	at := func(d int64) *big.Int {
		move(big.NewInt(d))
		return dot(l.l, l.r)
	}
	// c0 + c1 d + c2 d^2 = want
	f0, f1, f2 := at(0), at(1), at(2)
	half := inv(big.NewInt(2))
	c2 := mulN(modN(new(big.Int).Add(new(big.Int).Sub(f2, new(big.Int).Lsh(f1, 1)), f0)), half)
	c1 := modN(new(big.Int).Sub(new(big.Int).Sub(f1, f0), c2))
	c0 := modN(new(big.Int).Sub(f0, want))
	var d *big.Int
	if c2.Sign() == 0 {
		d = mulN(modN(new(big.Int).Neg(c0)), inv(c1))
	} else {
		disc := modN(new(big.Int).Sub(mulN(c1, c1), mulN(mulN(big.NewInt(4), c2), c0)))
		q := new(big.Int).ModSqrt(disc, secpN)
		if q == nil {
			return false
		}
		d = mulN(modN(new(big.Int).Sub(q, c1)), inv(new(big.Int).Lsh(c2, 1)))
	}
	move(d)
	l.tprime = dot(l.l, l.r)
	l.Commit = bulletproofs.VerifCommitInnerProduct(l.Gg, l.hprime, l.l, l.r)
	return true
}

// hashIP is the challenge of the inner product argument, an error if the code has no such function.
func hashIP(g, h []*p256.P256, P *p256.P256, c *big.Int, n int64) (x *big.Int, err error) {
	defer func() {
		if recover() != nil {
			err = errors.New("no challenge")
		}
	}()
	return bulletproofs.VerifHashIP(g, h, P, c, n)
}
