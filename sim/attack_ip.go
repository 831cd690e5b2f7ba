package main

import (
	"math/big"

	"github.com/ing-bank/zkrp/bulletproofs"
	"github.com/ing-bank/zkrp/crypto/p256"
	"verifsim/rt/vsha"
)

// Dishonest provers of inner-product arguments. They learn the challenges from the hashes that the
// verifier computes while it reads a message, so that an attack does not depend on how they are computed.

// vec is a point whose representation is known.
type vec struct {
	g, h []*big.Int
	u    *big.Int
}

func newVec(n int64) *vec {
	v := &vec{u: new(big.Int)}
	for i := int64(0); i < n; i++ {
		v.g, v.h = append(v.g, new(big.Int)), append(v.h, new(big.Int))
	}
	return v
}

func randVec(n int64, r *Rand) *vec {
	v := newVec(n)
	for i := range v.g {
		v.g[i], v.h[i] = r.Big(secpN), r.Big(secpN)
	}
	if r.P(1, 2) {
		v.u = r.Big(secpN)
	}
	return v
}

// add adds k times w.
func (v *vec) add(w *vec, k *big.Int) {
	for i := range v.g {
		v.g[i] = addN(v.g[i], mulN(w.g[i], k))
		v.h[i] = addN(v.h[i], mulN(w.h[i], k))
	}
	v.u = addN(v.u, mulN(w.u, k))
}

func (v *vec) scale(k *big.Int) {
	for i := range v.g {
		v.g[i], v.h[i] = mulN(v.g[i], k), mulN(v.h[i], k)
	}
	v.u = mulN(v.u, k)
}

func (v *vec) point(g, h []pt, u pt) pt {
	out := mulP(u, v.u)
	for i := range v.g {
		if v.g[i].Sign() != 0 {
			out = addP(out, mulP(g[i], v.g[i]))
		}
		if v.h[i].Sign() != 0 {
			out = addP(out, mulP(h[i], v.h[i]))
		}
	}
	return out
}

// hashOracle tells which of the hashes that a verifier computes are the challenges.
type hashOracle struct {
	total, x0, start, stride int
	twos                     bool // digests are read as two's complement numbers
	known                    bool
}

func (o hashOracle) number(b []byte) *big.Int { return o.numberOf(b, secpN) }

func (o hashOracle) numberOf(b []byte, n *big.Int) *big.Int {
	x := new(big.Int).SetBytes(b)
	if o.twos && len(b) > 0 && b[0] >= 0x80 {
		x.Sub(x, new(big.Int).Lsh(big.NewInt(1), uint(8*len(b))))
	}
	return x.Mod(x, n)
}

func digests(f func()) (out [][]byte) {
	return vsha.Record(func() {
		defer func() { recover() }()
		f()
	})
}

// rounds returns the challenges of the rounds.
func (o hashOracle) rounds(d [][]byte, k int) []*big.Int {
	var xs []*big.Int
	for i := 0; i < k; i++ {
		if j := o.start + i*o.stride; j < len(d) {
			xs = append(xs, o.number(d[j]))
		}
	}
	if len(xs) != k {
		return nil
	}
	return xs
}

// foldPoint is what remains of the condition on P' after the rounds: a neutral element for a valid argument.
func foldRest(P pt, ls, rs, g, h []pt, u pt, A, B *big.Int, xs []*big.Int) pt {
	rest := P
	for i, x := range xs {
		x2 := mulN(x, x)
		rest = addP(rest, addP(mulP(ls[i], x2), mulP(rs[i], inv(x2))))
	}
	sg, sh := foldWeights(int64(len(g)), xs)
	right := mulP(u, mulN(A, B))
	for i := range g {
		right = addP(right, addP(mulP(g[i], mulN(A, sg[i])), mulP(h[i], mulN(B, sh[i]))))
	}
	return addP(rest, neg(right))
}

// foldWeights returns the powers of the generators in the last round.
func foldWeights(n int64, xs []*big.Int) (sg, sh []*big.Int) {
	for j := int64(0); j < n; j++ {
		a, b := big.NewInt(1), big.NewInt(1)
		for i, x := range xs {
			if bit := n >> uint(i+1); j&bit != 0 {
				a, b = mulN(a, x), mulN(b, inv(x))
			} else {
				a, b = mulN(a, inv(x)), mulN(b, x)
			}
		}
		sg, sh = append(sg, a), append(sh, b)
	}
	return
}

func uuPoint() pt { u, _ := p256.MapToGroup(bulletproofs.SEEDU); return u }

// learn finds the challenges of an honest argument among the hashes of its verification.
func learn(ip *bulletproofs.InnerProductProof, g, h []pt, verify func()) hashOracle {
	d := digests(verify)
	o := hashOracle{total: len(d), x0: -1}
	k := len(ip.Ls)
	if len(ip.Rs) != k || len(g) != 1<<uint(k) {
		return o
	}
	uu := uuPoint()
	for _, twos := range []bool{false, true} {
		o.twos = twos
		for i := range d {
			if eqP(mulP(uu, o.number(d[i])), ip.U) {
				o.x0 = i
			}
		}
		if o.x0 >= 0 {
			break
		}
	}
	if k == 0 {
		o.known = o.x0 >= 0
		return o
	}
	x0twos := o.twos
	for _, twos := range []bool{false, true} {
		o.twos = twos
		for o.stride = 1; o.stride <= 4; o.stride++ {
			for o.start = 0; o.start < len(d); o.start++ {
				xs := o.rounds(d, k)
				if xs != nil && foldRest(ip.Params.P, ip.Ls, ip.Rs, g, h, ip.U, ip.A, ip.B, xs).IsZero() {
					o.known = true
					return o
				}
			}
		}
	}
	o.twos = x0twos
	return o
}

var ipForges = []string{"P-late", "c-late", "L-late", "R-late", "P-late", "plain", "u-own", "U-ratio", "Uu-own", "P-late-u", "c-late-2"}

// ipLie makes an argument for a commitment whose opening (a, b, power k of u) is known and whose inner
// product is not the claimed one, or whose opening contains a power of u. nil: not possible.
func ipLie(name string, n int64, g, h []pt, o hashOracle, r *Rand) (*bulletproofs.InnerProductProof, bool) {
	k := 0
	for 1<<uint(k) < n {
		k++
	}
	uu := uuPoint()
	params, err := bulletproofs.VerifSetupInnerProduct(nil, g, h, new(big.Int), n)
	if err != nil {
		return nil, false
	}
	ls, rs := make([]*vec, k), make([]*vec, k)
	for i := range ls {
		ls[i], rs[i] = randVec(n, r), randVec(n, r)
	}
	P := randVec(n, r)
	P.u = new(big.Int)
	A, B, c := r.Big(secpN), r.Big(secpN), r.Big(secpN)
	U := uu
	unscaled := false // Params.P is P itself
	build := func() *bulletproofs.InnerProductProof {
		p := &bulletproofs.InnerProductProof{N: n, U: U, A: A, B: B, Gg: g[0], Hh: h[0]}
		for i := range ls {
			p.Ls = append(p.Ls, ls[i].point(g, h, uu))
			p.Rs = append(p.Rs, rs[i].point(g, h, uu))
		}
		p.Params = params
		p.Params.Cc = c
		p.Params.P = P.point(g, h, uu)
		if !unscaled {
			p.Params.P = addP(p.Params.P, mulP(U, c))
		}
		p.P = p.Params.P
		return p
	}
	ask := func() (x0 *big.Int, xs []*big.Int) {
		p := build()
		d := digests(func() { p.Verify() })
		if len(d) != o.total && o.x0 >= 0 && o.x0 < len(d) && !unscaled {
			// perhaps the verifier looks at u before the rounds
			keep := U
			U = mulP(uu, o.number(d[o.x0]))
			p := build()
			d = digests(func() { p.Verify() })
			U = keep
		}
		if len(d) != o.total || !o.known {
			return nil, nil
		}
		return o.number(d[max(o.x0, 0)]), o.rounds(d, k)
	}
	// the verifier's u for the final message
	finish := func() (*bulletproofs.InnerProductProof, bool) {
		lie := P.u.Sign() != 0 || modN(new(big.Int).Sub(dot(P.g, P.h), c)).Sign() != 0
		if o.x0 >= 0 && !unscaled {
			if x0, _ := ask(); x0 != nil {
				U = mulP(uu, x0)
			}
		}
		return build(), lie
	}
	// sides returns the part of the condition that the rounds and the answers fix: what P.u^(x0.c) has to be
	sides := func(x0 *big.Int, xs []*big.Int, skip *vec) *vec {
		v := newVec(n)
		sg, sh := foldWeights(n, xs)
		for j := range sg {
			v.g[j], v.h[j] = mulN(A, sg[j]), mulN(B, sh[j])
		}
		v.u = mulN(x0, mulN(A, B))
		for i, x := range xs {
			x2 := modN(new(big.Int).Neg(mulN(x, x)))
			if ls[i] != skip {
				v.add(ls[i], x2)
			}
			if rs[i] != skip {
				v.add(rs[i], modN(new(big.Int).Neg(inv(mulN(x, x)))))
			}
		}
		return v
	}
	switch name {
	case "plain":
		params.Cc = c
		p, err := bulletproofs.VerifProveInnerProduct(P.g, P.h, P.point(g, h, uu), params)
		if err != nil {
			return nil, false
		}
		return &p, true
	case "P-late", "P-late-u":
		// the commitment is chosen after the rounds
		c = mulN(A, B)
		if name == "P-late-u" {
			c = r.Big(secpN)
		}
		x0, xs := ask()
		if xs == nil && k > 0 || x0 == nil {
			return nil, false
		}
		P = sides(x0, xs, nil)
		P.u = addN(P.u, modN(new(big.Int).Neg(mulN(x0, c))))
		return finish()
	case "L-late", "R-late":
		// an element of a round is chosen after its challenge
		if k == 0 {
			return nil, false
		}
		i := r.N(k)
		late := ls[i]
		if name == "R-late" {
			late = rs[i]
		}
		x0, xs := ask()
		if xs == nil {
			return nil, false
		}
		v := sides(x0, xs, late)
		v.add(P, modN(big.NewInt(-1)))
		v.u = addN(v.u, modN(new(big.Int).Neg(mulN(x0, c))))
		x2 := mulN(xs[i], xs[i])
		if name == "L-late" {
			x2 = inv(x2)
		}
		v.scale(x2)
		*late = *v
		return finish()
	case "c-late", "c-late-2", "u-own", "U-ratio", "Uu-own":
		if k == 0 && name != "u-own" && name != "U-ratio" && name != "Uu-own" {
			return nil, false
		}
		x0 := new(big.Int) // the power of u in the rounds
		ab := dot(P.g, P.h)
		switch name {
		case "c-late", "c-late-2":
			if x0, _ = ask(); x0 == nil {
				return nil, false
			}
		case "u-own":
			U = new(p256.P256).SetInfinity()
			unscaled = true
		case "Uu-own":
			params.Uu = new(p256.P256).SetInfinity()
			U = params.Uu
			unscaled = true
		case "U-ratio":
			// P' of the honest argument, with a u that turns it into the other statement
			if x0, _ = ask(); x0 == nil {
				return nil, false
			}
		}
		// honest folding
		a, b := append([]*big.Int{}, P.g...), append([]*big.Int{}, P.h...)
		wg, wh := foldWeights(n, nil)
		extra := new(big.Int)
		var xs []*big.Int
		for i := 0; i < k; i++ {
			m := len(a) / 2
			L, R := newVec(n), newVec(n)
			// generator j of this round is the product of the j-th of every block
			for j := int64(0); j < n; j++ {
				pos := int(j) % (2 * m)
				if pos >= m {
					L.g[j] = mulN(wg[j], a[pos-m])
					R.h[j] = mulN(wh[j], b[pos-m])
				} else {
					R.g[j] = mulN(wg[j], a[pos+m])
					L.h[j] = mulN(wh[j], b[pos+m])
				}
			}
			L.u = mulN(x0, dot(a[:m], b[m:]))
			R.u = mulN(x0, dot(a[m:], b[:m]))
			dl, dr := new(big.Int), new(big.Int)
			if name == "c-late" && i == 0 || name == "c-late-2" {
				dl = r.Big(secpN)
				if r.P(1, 2) {
					dr = r.Big(secpN)
				}
				L.u, R.u = addN(L.u, dl), addN(R.u, dr)
			}
			ls[i], rs[i] = L, R
			_, now := ask()
			if now == nil {
				return nil, false
			}
			x := now[i]
			xs = append(xs, x)
			xi := inv(x)
			x2 := mulN(x, x)
			extra = addN(extra, addN(mulN(dl, x2), mulN(dr, inv(x2))))
			var a2, b2 []*big.Int
			for j := 0; j < m; j++ {
				a2 = append(a2, addN(mulN(a[j], x), mulN(a[j+m], xi)))
				b2 = append(b2, addN(mulN(b[j], xi), mulN(b[j+m], x)))
			}
			for j := int64(0); j < n; j++ {
				if int(j)%(2*m) < m {
					wg[j], wh[j] = mulN(wg[j], xi), mulN(wh[j], x)
				} else {
					wg[j], wh[j] = mulN(wg[j], x), mulN(wh[j], xi)
				}
			}
			a, b = a2, b2
		}
		A, B = a[0], b[0]
		switch name {
		case "c-late", "c-late-2":
			// x0.c + extra = x0.<a,b>
			c = modN(new(big.Int).Sub(ab, mulN(extra, inv(x0))))
			return finish()
		case "U-ratio":
			U = mulP(uu, mulN(mulN(x0, ab), inv(c)))
			unscaled = false
			return build(), true
		}
		return build(), true
	}
	return nil, false
}

// forgeIP makes the message of a dishonest prover: op.N = verifier, honest message to observe, strategy, size, seed.
func forgeIP(w *World, op Op) ([]byte, int, string) {
	m := w.pick(op.n(1))
	if m == nil {
		return nil, 0, ""
	}
	honest := m.obj.(*bulletproofs.InnerProductProof)
	n := honest.N
	name := ipForges[int(op.n(2))%len(ipForges)]
	key := "ip-oracle"
	k, _ := w.shared["ip-oracle-k"].(int)
	o, ok := w.shared[key].(hashOracle)
	if !ok || len(honest.Ls) != k {
		p := deepCopy(honest)
		o = learn(p, honest.Params.Gg, honest.Params.Hh, func() { p.Verify() })
		w.shared[key], w.shared["ip-oracle-k"] = o, len(honest.Ls)
		if o.known {
			w.c.count("challenges-learned")
		} else {
			w.c.count("challenges-unknown")
		}
	}
	r := NewRand(uint64(op.n(4)))
	p, lie := ipLie(name, n, honest.Params.Gg, honest.Params.Hh, o, r)
	if p == nil {
		w.c.count("forge-impossible:" + name)
		return nil, 0, ""
	}
	if !lie {
		w.c.count("forge-true:" + name)
		return nil, 0, ""
	}
	return jsonOf(p), m.ctxID, "forge:" + name
}

// ipTrue tells if one of the openings that exist in this world, or the one that the message shows, is an
// opening of the message's commitment with the message's inner product.
func ipTrue(w *World, p *bulletproofs.InnerProductProof) bool {
	n := len(p.Params.Gg)
	if len(p.Params.Hh) != n {
		return false
	}
	P := addP(p.Params.P, neg(mulP(p.U, p.Params.Cc)))
	is := func(a, b []*big.Int) bool {
		v := &vec{u: new(big.Int)}
		for i := range a {
			v.g, v.h = append(v.g, modN(a[i])), append(v.h, modN(b[i]))
		}
		return len(a) == n && modN(new(big.Int).Sub(dot(a, b), p.Params.Cc)).Sign() == 0 && eqP(v.point(p.Params.Gg, p.Params.Hh, uuPoint()), P)
	}
	for _, ctx := range w.ctxs {
		if x := ctx.(*ipCtx); is(x.a, x.b) {
			return true
		}
	}
	return n == 1 && is([]*big.Int{p.A}, []*big.Int{p.B})
}
