package main

import (
	"crypto/rand"
	"fmt"
	"math/big"
	"regexp"

	"github.com/ing-bank/zkrp/bulletproofs"
	"github.com/ing-bank/zkrp/crypto/bn256"
	"github.com/ing-bank/zkrp/crypto/p256"
)

// Histories of group operations on registers, compared with the reference models (C17, C18).

// ---- C17 ----

type regs struct {
	G1 []*elem
	G2 []*elem
	GT []*elem
}

const nRegs = 4

func (g *regs) of(kind string) []*elem {
	switch kind {
	case "g1":
		return g.G1
	case "g2":
		return g.G2
	}
	return g.GT
}

// buildRegs makes the initial registers: S = kind; N = index, way, seed; S[1] = exponent.
func buildRegs(c *Ctx) *regs {
	g := &regs{}
	for i := 0; i < nRegs; i++ {
		g.G1 = append(g.G1, &elem{kind: "g1", g1: new(bn256.G1).ScalarBaseMult(big.NewInt(1)), k: big.NewInt(1)})
		g.G2 = append(g.G2, &elem{kind: "g2", g2: new(bn256.G2).ScalarBaseMult(big.NewInt(1)), k: big.NewInt(1)})
	}
	for _, op := range c.plan.Ops {
		if op.K != "env-reg" {
			continue
		}
		op := op
		c.must("compute-element", nil, func() {
			e := recipe(op.s(0), bigOf(op.s(1)), op.n(1), NewRand(uint64(op.n(2))))
			switch op.s(0) {
			case "g1":
				g.G1[op.n(0)%nRegs] = e
			case "g2":
				g.G2[op.n(0)%nRegs] = e
			case "gt":
				g.GT = append(g.GT, e)
			}
		})
	}
	return g
}

var reNumber = regexp.MustCompile(`-?[0-9]+`)

// reduceNumbers takes the numbers of a text modulo the field size.
func reduceNumbers(s string) string {
	return reNumber.ReplaceAllStringFunc(s, func(x string) string {
		v := bigOf(x)
		return v.Mod(v, refP).String()
	})
}

func fresh(e *elem) *elem { return &elem{kind: e.kind, k: e.k} }

// receiver prepares the register that an operation sets: reuse keeps the present object.
func receiver(e *elem, reuse bool) {
	switch e.kind {
	case "g1":
		if !reuse || e.g1 == nil {
			e.g1 = new(bn256.G1)
		}
	case "g2":
		if !reuse || e.g2 == nil {
			e.g2 = new(bn256.G2)
		}
	case "gt":
		if !reuse || e.gt == nil {
			e.gt = new(bn256.GT)
		}
	}
}

// apply executes an operation: S = what, kind; N = destination, operands, fresh receiver; S[2] = scalar.
// dst is the register to set, a and b are the operands.
func apply(op Op, g *regs, dst, a, b *elem) (problem string) {
	k := bigOf(op.s(2))
	kb := k.String()
	defer func() {
		if k.String() != kb && problem == "" {
			problem = "the operation changed the scalar " + kb + " to " + k.String()
		}
	}()
	ax, bx := a.k, b.k
	ra, rb := *a, *b // operands keep their objects when dst is one of them
	reuse := op.n(3) == 0
	receiver(dst, reuse)
	same := func(ok bool) {
		if !ok {
			problem = "the operation does not return its receiver"
		}
	}
	switch op.s(0) {
	case "add":
		switch dst.kind {
		case "g1":
			same(dst.g1.Add(ra.g1, rb.g1) == dst.g1)
		case "g2":
			same(dst.g2.Add(ra.g2, rb.g2) == dst.g2)
		case "gt":
			same(dst.gt.Add(ra.gt, rb.gt) == dst.gt)
		}
		dst.k = bnAdd(ax, bx)
	case "neg":
		switch dst.kind {
		case "g1":
			same(dst.g1.Neg(ra.g1) == dst.g1)
		case "g2":
			same(dst.g2.Neg(ra.g2) == dst.g2)
		case "gt":
			if op.n(4)%2 == 0 {
				same(dst.gt.Neg(ra.gt) == dst.gt)
			} else {
				same(dst.gt.Invert(ra.gt) == dst.gt)
			}
		}
		dst.k = bnSub(new(big.Int), ax)
	case "mul":
		switch dst.kind {
		case "g1":
			same(dst.g1.ScalarMult(ra.g1, k) == dst.g1)
		case "g2":
			same(dst.g2.ScalarMult(ra.g2, k) == dst.g2)
		case "gt":
			if op.n(4)%2 == 0 {
				same(dst.gt.ScalarMult(ra.gt, k) == dst.gt)
			} else {
				same(dst.gt.Exp(ra.gt, k) == dst.gt)
			}
		}
		dst.k = bnMul(ax, k)
	case "base":
		switch dst.kind {
		case "g1":
			same(dst.g1.ScalarBaseMult(k) == dst.g1)
			dst.k = bnMod(k)
		case "g2":
			same(dst.g2.ScalarBaseMult(k) == dst.g2)
			dst.k = bnMod(k)
		case "gt":
			x, y := g.G1[op.n(1)%nRegs], g.G2[op.n(2)%nRegs]
			dst.gt = bn256.Pair(x.g1, y.g2)
			dst.k = bnMul(x.k, y.k)
		}
	case "inf":
		switch dst.kind {
		case "g1":
			if reuse && op.n(4)%2 == 0 {
				dst.g1.SetZero()
			} else {
				dst.g1.SetInfinity()
			}
		case "g2":
			dst.g2.SetInfinity()
		case "gt":
			dst.gt.Add(ra.gt, new(bn256.GT).Neg(ra.gt))
		}
		dst.k = new(big.Int)
	case "coded": // through the encoding of an operand
		bts := ra.marshal()
		ok := false
		switch dst.kind {
		case "g1":
			_, ok = dst.g1.Unmarshal(bts)
		case "g2":
			_, ok = dst.g2.Unmarshal(bts)
		case "gt":
			_, ok = dst.gt.Unmarshal(bts)
		}
		if !ok {
			return "an element's own encoding is rejected"
		}
		dst.k = ax
	case "random":
		var r *big.Int
		var err error
		switch dst.kind {
		case "g1":
			r, dst.g1, err = bn256.RandomG1(rand.Reader)
		case "g2":
			r, dst.g2, err = bn256.RandomG2(rand.Reader)
		default:
			return
		}
		if err != nil {
			return "drawing an element failed: " + err.Error()
		}
		if r.Sign() <= 0 || r.Cmp(bnN) >= 0 {
			return "a random exponent is out of range: " + r.String()
		}
		dst.k = bnMod(r)
	}
	return
}

// read executes a reading operation: S = what, kind.
func readElem(op Op, g *regs, a *elem) (problem string) {
	zero := a.k.Sign() == 0
	switch op.s(0) {
	case "marshal":
		if !sameAs(a.kind, a.marshal(), a.k) {
			return fmt.Sprintf("a %s element is not the generator's power %v", a.kind, a.k)
		}
	case "string":
		if a.kind == "gt" {
			_ = a.String()
			return
		}
		e := recipe(a.kind, a.k, 0, NewRand(1))
		if s, t := a.String(), e.String(); reduceNumbers(s) != reduceNumbers(t) && !zero {
			return fmt.Sprintf("the same %s element prints as %s and %s", a.kind, s, t)
		}
	case "iszero":
		switch a.kind {
		case "g1":
			if a.g1.IsZero() != zero {
				return fmt.Sprintf("IsZero of the G1 element with exponent %v is %v", a.k, !zero)
			}
		case "g2":
			if a.g2.IsZero() != zero {
				return fmt.Sprintf("IsZero of the G2 element with exponent %v is %v", a.k, !zero)
			}
		case "gt":
			if a.gt.IsOne() != zero || a.gt.IsZero() {
				return fmt.Sprintf("IsOne of the GT element with exponent %v is %v, IsZero %v", a.k, a.gt.IsOne(), a.gt.IsZero())
			}
		}
	case "points":
		switch a.kind {
		case "g1":
			x, y, z, _ := a.g1.CurvePoints()
			if zero != (new(big.Int).Mod(z, refP).Sign() == 0) {
				return "the projective coordinate of a G1 element is wrong"
			}
			if !zero {
				zi := new(big.Int).ModInverse(new(big.Int).Mod(z, refP), refP)
				z2 := new(big.Int).Mul(zi, zi)
				ax := new(big.Int).Mul(x, z2)
				ay := new(big.Int).Mul(new(big.Int).Mul(y, z2), zi)
				out := make([]byte, 64)
				ax.Mod(ax, refP).FillBytes(out[:32])
				ay.Mod(ay, refP).FillBytes(out[32:])
				if !sameAs("g1", out, a.k) {
					return "the coordinates of a G1 element are wrong"
				}
			}
		case "g2":
			_, _, _, _ = a.g2.CurvePoints()
		}
	case "check":
		n := 1 + int(op.n(4)%4)
		var xs []*bn256.G1
		var ys []*bn256.G2
		sum := new(big.Int)
		for i := 0; i < n; i++ {
			x, y := g.G1[(op.n(1)+int64(i)*op.n(2))%nRegs], g.G2[(op.n(2)+int64(i))%nRegs]
			xs, ys = append(xs, x.g1), append(ys, y.g2)
			sum.Add(sum, new(big.Int).Mul(x.k, y.k))
		}
		want := bnMod(sum).Sign() == 0
		if bn256.PairingCheck(xs, ys) != want {
			return fmt.Sprintf("PairingCheck of %d pairs with exponent sum %v is %v", n, bnMod(sum), !want)
		}
	case "check-opposite": // e(a, b) e(-a, b) = 1
		x, y := g.G1[op.n(1)%nRegs], g.G2[op.n(2)%nRegs]
		nx := new(bn256.G1).Neg(x.g1)
		if !bn256.PairingCheck([]*bn256.G1{x.g1, nx}, []*bn256.G2{y.g2, y.g2}) {
			return fmt.Sprintf("e(a,b)e(-a,b) is not one for exponents %v, %v", x.k, y.k)
		}
	case "equal":
		b := recipe(a.kind, a.k, op.n(4), NewRand(uint64(op.n(2))))
		if string(a.marshal()) != string(b.marshal()) {
			return fmt.Sprintf("two %s elements with exponent %v have different encodings", a.kind, a.k)
		}
	}
	return
}

var writes = []string{"add", "add", "add", "neg", "mul", "mul", "base", "inf", "coded", "random"}
var readsC17 = []string{"marshal", "string", "iszero", "points", "check", "check-opposite", "equal"}

func isRead(k string) bool {
	for _, s := range readsC17 {
		if s == k {
			return true
		}
	}
	return false
}

func pickReg(g *regs, kind string, i int64) *elem {
	rs := g.of(kind)
	if len(rs) == 0 {
		return nil
	}
	return rs[int(uint64(i)%uint64(len(rs)))]
}

// regHistory executes one history.
func regHistory(c *Ctx) {
	g := buildRegs(c)
	c.st.Nontriv = true
	for _, op := range c.plan.Ops {
		if op.K != "op" {
			continue
		}
		kind := op.s(1)
		dst, a, b := pickReg(g, kind, op.n(0)), pickReg(g, kind, op.n(1)), pickReg(g, kind, op.n(2))
		if dst == nil {
			continue
		}
		problem := ""
		s := c.stream(op, bnN)
		c.must(op.s(0)+"-"+kind, s, func() {
			if isRead(op.s(0)) {
				problem = readElem(op, g, a)
			} else {
				problem = apply(op, g, dst, a, b)
			}
		})
		c.absorb(s)
		c.event("%s %s %d %d %d -> %v", op.s(0), kind, op.n(0), op.n(1), op.n(2), dst.k)
		if problem != "" {
			c.fail(op.s(0)+"-"+kind, "%s", problem)
		}
	}
	for _, kind := range []string{"g1", "g2", "gt"} {
		for i, e := range g.of(kind) {
			var b []byte
			c.must("encode-element", nil, func() { b = e.marshal() })
			if !sameAs(kind, b, e.k) {
				c.fail("value-"+kind, "register %d of %s is not the generator's power %v that the model predicts", i, kind, e.k)
			}
		}
	}
	if int(c.plan.Seed%4) == 0 {
		c.canaries()
	}
}

func scalarFor(r *Rand, order *big.Int) *big.Int {
	k := remarkable(r, order)
	switch r.N(7) {
	case 0:
		k.Neg(k)
	case 1:
		k.Add(k, order)
	case 2:
		k.Sub(k, new(big.Int).Lsh(order, 1))
	case 3:
		if r.P(1, 2) {
			k = r.Big(pow2(700))
		}
	}
	return k
}

func genRegOps(r *Rand, p *Plan, n int, kinds ...string) {
	// few registers per execution, so that operations meet the same ones
	span := 1 + r.N64(nRegs)
	for i := 0; i < n; i++ {
		kind := kinds[r.N(len(kinds))]
		what := writes[r.N(len(writes))]
		if r.P(1, 4) {
			what = readsC17[r.N(len(readsC17))]
		}
		if kind == "gt" && what == "random" {
			what = "add"
		}
		d, a, b := r.N64(span), r.N64(span), r.N64(span)
		o := p.op("op", 0, []int64{d, a, b, r.Pick(0, 0, 0, 1), r.N64(1000)}, what, kind, scalarFor(r, bnN).String())
		if what == "random" && r.P(1, 2) {
			p.fault("ent", int64(o.ID), r.N64(2), r.Pick(0, 0, 1, 2, 3))
		}
	}
}

func genC17(r *Rand, p *Plan, _ bool) {
	if r.P(1, 5) {
		genC17Threads(r, p)
		return
	}
	p.Kind = "history"
	mode := r.N(4)
	kinds := [][]string{{"g1"}, {"g2"}, {"g1", "g2"}, {"g1", "g2", "gt", "gt"}}[mode]
	for i := int64(0); i < nRegs; i++ {
		for _, k := range kinds {
			if k != "gt" && r.P(1, 2) {
				p.op("env-reg", 0, []int64{i, r.N64(8), int64(r.U64() >> 1)}, k, remarkable(r, bnN).String())
			}
		}
	}
	if mode == 3 {
		for i := 0; i < 2; i++ {
			p.op("env-reg", 0, []int64{0, r.N64(6), int64(r.U64() >> 1)}, "gt", remarkable(r, bnN).String())
		}
		genRegOps(r, p, 10+r.N(12), kinds...)
		return
	}
	genRegOps(r, p, 10+r.N(40), kinds...)
}

// regExec executes an operation of a thread; it writes only to a register of its own.
func regExec(env any, op Op) (res opResult) {
	g := env.(*regs)
	kind := op.s(1)
	a, b := pickReg(g, kind, op.n(1)), pickReg(g, kind, op.n(2))
	if a == nil {
		return
	}
	if isRead(op.s(0)) {
		// the models are not made for several threads: their answers are known before the run
		switch op.s(0) {
		case "marshal":
			res.text = fmt.Sprintf("%x", a.marshal())
		case "string":
			res.text = a.String()
		case "iszero":
			switch kind {
			case "g1":
				res.text = fmt.Sprint(a.g1.IsZero())
			case "g2":
				res.text = fmt.Sprint(a.g2.IsZero())
			case "gt":
				res.text = fmt.Sprint(a.gt.IsOne(), a.gt.IsZero())
			}
		case "points":
			switch kind {
			case "g1":
				x, y, z, _ := a.g1.CurvePoints()
				_, _, _ = x.Sign(), y.Sign(), z.Sign()
			case "g2":
				_, _, _, _ = a.g2.CurvePoints()
			}
		default:
			x, y := g.G1[op.n(1)%nRegs], g.G2[op.n(2)%nRegs]
			if op.s(0) == "check" {
				res.text = fmt.Sprint(bn256.PairingCheck([]*bn256.G1{x.g1, x.g1}, []*bn256.G2{y.g2, y.g2}))
			} else {
				nx := new(bn256.G1).Neg(x.g1)
				ok := bn256.PairingCheck([]*bn256.G1{x.g1, nx}, []*bn256.G2{y.g2, y.g2})
				res.text = fmt.Sprint(ok)
				if !ok {
					res.problem = "e(a,b)e(-a,b) is not one"
				}
			}
		}
		res.coarse = res.text
		return
	}
	own := &elem{kind: kind, k: new(big.Int)}
	op.N = append([]int64(nil), op.N...)
	for len(op.N) < 5 {
		op.N = append(op.N, 0)
	}
	op.N[3] = 1 // a new receiver
	problem := apply(op, g, own, a, b)
	res.problem = problem
	if problem == "" {
		res.text = fmt.Sprintf("%v:%x", own.k, own.marshal())
	}
	res.coarse = res.text
	return
}

func regThreads(c *Ctx) {
	g := buildRegs(c)
	w := &threadWorld{c: c, order: bnN, env: g, exec: regExec}
	w.judge = func(op Op, r opResult) string {
		kind := op.s(1)
		a, b := pickReg(g, kind, op.n(1)), pickReg(g, kind, op.n(2))
		if a == nil {
			return ""
		}
		switch op.s(0) {
		case "marshal":
			if r.text != fmt.Sprintf("%x", a.marshal()) || !sameAs(kind, a.marshal(), a.k) {
				return "the encoding of a shared element is wrong"
			}
		case "add", "neg", "mul", "base", "inf", "coded":
			var k *big.Int
			s := bigOf(op.s(2))
			switch op.s(0) {
			case "add":
				k = bnAdd(a.k, b.k)
			case "neg":
				k = bnSub(new(big.Int), a.k)
			case "mul":
				k = bnMul(a.k, s)
			case "base":
				k = bnMod(s)
				if kind == "gt" {
					k = bnMul(g.G1[op.n(1)%nRegs].k, g.G2[op.n(2)%nRegs].k)
				}
			case "inf":
				k = new(big.Int)
			case "coded":
				k = a.k
			}
			e := recipe(kind, k, 0, NewRand(1))
			b := e.marshal()
			if !sameAs(kind, b, k) {
				return "the generator's powers are wrong"
			}
			if r.text != fmt.Sprintf("%v:%x", k, b) {
				return fmt.Sprintf("the result is not the generator's power %v", k)
			}
		}
		return ""
	}
	runThreads(w)
}

func genC17Threads(r *Rand, p *Plan) {
	p.Kind = "threads"
	p.Cold = genCold(r, p)
	kinds := [][]string{{"g1"}, {"g2"}, {"g1", "g2"}, {"g1", "g2", "gt"}}[r.N(4)]
	for i := int64(0); i < 2; i++ {
		for _, k := range kinds {
			p.op("env-reg", 0, []int64{i, r.N64(8), int64(r.U64() >> 1)}, k, remarkable(r, bnN).String())
		}
	}
	threads := 2 + r.N(3)
	est := int64(0)
	for t := 0; t < threads; t++ {
		for i, n := 0, 1+r.N(4); i < n; i++ {
			kind := kinds[r.N(len(kinds))]
			what := r.PickS("marshal", "marshal", "string", "iszero", "points", "check", "check-opposite", "add", "neg", "mul", "base", "coded", "random")
			if kind == "gt" && what == "random" {
				what = "base"
			}
			p.top(t, "op", []int64{0, r.N64(2), r.N64(2), 1, r.N64(1000)}, what, kind, scalarFor(r, bnN).String())
			switch what {
			case "check", "check-opposite":
				est += 1500000
			case "mul", "base", "coded", "random":
				est += 150000
			default:
				est += 3000
			}
		}
	}
	genSched(r, p, threads, est)
}

// ---- C18 ----

type pregs struct {
	P []*p256.P256
	M []refPt
	K []*big.Int // shared scalars
}

func buildPRegs(c *Ctx) *pregs {
	g := &pregs{}
	for _, op := range c.plan.Ops {
		op := op
		switch op.K {
		case "env-point": // S = exponent of G; N = 1 for a hashed point
			c.must("compute-point", nil, func() {
				if op.n(0) == 1 {
					h, err := p256.MapToGroup(fmt.Sprint(op.s(0), bulletproofs.SEEDH))
					if err != nil {
						c.fail("map-to-group", "hashing to the curve failed: %v", err)
					}
					g.P = append(g.P, h)
					g.M = append(g.M, refPt{new(big.Int).Set(h.X), new(big.Int).Set(h.Y)})
					return
				}
				m := refPoint(bigOf(op.s(0)))
				g.M = append(g.M, m)
				if c.plan.Cold && m.x != nil { // a point from elsewhere
					g.P = append(g.P, &p256.P256{X: new(big.Int).Set(m.x), Y: new(big.Int).Set(m.y)})
					return
				}
				g.P = append(g.P, new(p256.P256).ScalarBaseMult(bigOf(op.s(0))))
			})
		case "env-scalar":
			g.K = append(g.K, bigOf(op.s(0)))
		}
	}
	return g
}

func modelString(p *p256.P256) string { return pointString(p) }

// applyP executes an operation into dst; it returns what the model says.
func applyP(op Op, dst *p256.P256, a, b *p256.P256, ma, mb refPt, k *big.Int) (m refPt, problem string, isWrite bool) {
	same := func(p *p256.P256) {
		if p != dst {
			problem = "the operation does not return its receiver"
		}
	}
	isWrite = true
	switch op.s(0) {
	case "add":
		if ma.String() == mb.String() && ma.x != nil { // outside of Add's precondition
			same(dst.Multiply(a, b))
		} else {
			same(dst.Add(a, b))
		}
		m = ma.add(mb)
	case "multiply":
		same(dst.Multiply(a, b))
		m = ma.add(mb)
	case "double":
		same(dst.Double(a))
		m = ma.add(ma)
	case "neg":
		same(dst.Neg(a))
		m = ma.mul(big.NewInt(-1))
	case "mul":
		same(dst.ScalarMult(a, k))
		m = ma.mul(k)
	case "base":
		same(dst.ScalarBaseMult(k))
		m = refPoint(k)
	case "inf":
		same(dst.SetInfinity())
	case "share": // the coordinates of another point
		dst.X, dst.Y = a.X, a.Y
		m = ma
	default:
		isWrite = false
		switch op.s(0) {
		case "iszero":
			if a.IsZero() != (ma.x == nil) {
				problem = "IsZero of " + ma.String() + " is wrong"
			}
		case "oncurve":
			if ma.x != nil && !a.IsOnCurve() {
				problem = "IsOnCurve of " + ma.String() + " is false"
			}
		case "string":
			if ma.x != nil && a.String() != "P256"+ma.String() {
				problem = "String of " + ma.String() + " is " + a.String()
			}
		case "off": // a point next to the curve
			if ma.x != nil {
				q := &p256.P256{X: new(big.Int).Set(a.X), Y: new(big.Int).Add(a.Y, big.NewInt(1))}
				if q.IsOnCurve() {
					problem = "IsOnCurve of a point next to " + ma.String() + " is true"
				}
			}
		}
	}
	return
}

func (g *pregs) scalar(op Op) *big.Int {
	if op.n(4) >= 0 && len(g.K) > 0 {
		return g.K[int(op.n(4))%len(g.K)]
	}
	return bigOf(op.s(2))
}

func pHistory(c *Ctx) {
	g := buildPRegs(c)
	if len(g.P) == 0 {
		return
	}
	c.st.Nontriv = true
	kfp := fingerprint(g.K)
	for _, op := range c.plan.Ops {
		if op.K != "op" {
			continue
		}
		d, i, j := int(op.n(0))%len(g.P), int(op.n(1))%len(g.P), int(op.n(2))%len(g.P)
		k := g.scalar(op)
		kb := k.String()
		a, b, ma, mb := g.P[i], g.P[j], g.M[i], g.M[j]
		if op.n(3) == 1 { // a new receiver
			g.P[d] = new(p256.P256)
		}
		var m refPt
		var problem string
		var isWrite bool
		old := g.M[d]
		c.must(op.s(0), nil, func() { m, problem, isWrite = applyP(op, g.P[d], a, b, ma, mb, k) })
		if isWrite {
			g.M[d] = m
		} else if op.n(3) == 1 {
			g.P[d], g.M[d] = new(p256.P256), refPt{}
		} else {
			g.M[d] = old
		}
		c.event("%s %d %d %d %s -> %s", op.s(0), d, i, j, kb, g.M[d])
		if problem != "" {
			c.fail(op.s(0), "%s", problem)
		}
		if k.String() != kb {
			c.fail(op.s(0)+"-scalar", "%s changed its scalar %s to %s", op.s(0), kb, k)
		}
		for x := range g.P { // every register, after every operation
			if pointString(g.P[x]) != g.M[x].String() {
				what := "the result"
				if x != d {
					what = "a point that is not the receiver"
				}
				c.fail("value-"+op.s(0), "after %s(%s, %s, %s), %s is %s, the model says %s", op.s(0), ma, mb, kb, what, pointString(g.P[x]), g.M[x])
			}
		}
	}
	if fingerprint(g.K) != kfp {
		c.fail("scalars-changed", "shared scalars were changed")
	}
	if int(c.plan.Seed%4) == 0 {
		c.canaries()
	}
}

func genC18(r *Rand, p *Plan, _ bool) {
	for i, n := 0, 1+r.N(4); i < n; i++ {
		hashed := int64(0)
		if r.P(1, 4) {
			hashed = 1
		}
		p.op("env-point", 0, []int64{hashed}, remarkable(r, secpN).String())
	}
	for i, n := 0, r.N(3); i < n; i++ {
		p.op("env-scalar", 0, nil, scalarFor(r, secpN).String())
	}
	one := func(t int) string {
		what := r.PickS("add", "add", "multiply", "multiply", "double", "neg", "mul", "mul", "base", "inf", "share", "iszero", "oncurve", "string", "off")
		sc := r.Pick(-1, -1, 0, 1)
		o := p.op("op", 0, []int64{r.N64(6), r.N64(6), r.N64(6), r.Pick(0, 0, 0, 1), sc}, what, "", scalarFor(r, secpN).String())
		o.T = t
		return what
	}
	if p.Kind == "threads" || r.P(1, 4) {
		p.Kind = "threads"
		p.Cold = genCold(r, p) && (p.Race || r.P(1, 3))
		threads := 2 + r.N(3)
		est := int64(0)
		for t := 0; t < threads; t++ {
			for i, n := 0, 2+r.N(5); i < n; i++ {
				one(t)
				est += 12
			}
		}
		genSched(r, p, threads, est)
		return
	}
	p.Kind = "history"
	for i, n := 0, 8+r.N(30); i < n; i++ {
		one(0)
	}
}

func pExec(env any, op Op) (res opResult) {
	g := env.(*pregs)
	if len(g.P) == 0 {
		return
	}
	i, j := int(op.n(1))%len(g.P), int(op.n(2))%len(g.P)
	dst := new(p256.P256)
	op.S = append([]string(nil), op.S...)
	if op.s(0) == "base" || op.s(0) == "mul" || op.s(0) == "neg" {
		// the model's answer is computed by the judge
		k := g.scalar(op)
		switch op.s(0) {
		case "base":
			dst.ScalarBaseMult(k)
		case "mul":
			dst.ScalarMult(g.P[i], k)
		case "neg":
			dst.Neg(g.P[i])
		}
		res.text = pointString(dst)
		res.coarse = res.text
		return
	}
	m, problem, isWrite := applyP(op, dst, g.P[i], g.P[j], g.M[i], g.M[j], nil)
	res.problem = problem
	res.text = pointString(dst)
	res.coarse = res.text
	if isWrite && problem == "" && res.text != m.String() {
		res.problem = op.s(0) + " gave " + res.text + ", the model says " + m.String()
	}
	return
}

func pThreads(c *Ctx) {
	g := buildPRegs(c)
	w := &threadWorld{c: c, order: secpN, env: g, exec: pExec}
	w.judge = func(op Op, r opResult) string {
		if len(g.P) == 0 {
			return ""
		}
		i := int(op.n(1)) % len(g.P)
		var m refPt
		switch op.s(0) {
		case "base":
			m = refPoint(g.scalar(op))
		case "mul":
			m = g.M[i].mul(g.scalar(op))
		case "neg":
			m = g.M[i].mul(big.NewInt(-1))
		default:
			return ""
		}
		if r.text != m.String() {
			return "the result is " + r.text + ", the model says " + m.String()
		}
		return ""
	}
	runThreads(w)
}

func init() {
	register(&Spec{ID: "C17", Gen: genC17, Quick: 2500, QuickRace: 60, Fresh: 60,
		Run:  map[string]func(*Ctx){"history": regHistory, "threads": regThreads},
		Rule: "Every history of operations counts as non-trivial; an execution with threads counts if the schedule preempted at least one of them.",
		Real: []string{"crypto/bn256 (all)"}, Stub: stubThr, Assume: []string{"go-ethereum's bn256 (cloudflare) implementation of the same curve is the reference"}})
	register(&Spec{ID: "C18", Gen: genC18, Quick: 16000, QuickRace: 200, Fresh: 200,
		Run:  map[string]func(*Ctx){"history": pHistory, "threads": pThreads},
		Rule: "Every history of operations counts as non-trivial; an execution with threads counts if the schedule preempted at least one of them.",
		Real: []string{"crypto/p256 with go-ethereum's secp256k1", "util/bn", "util/byteconversion"}, Stub: stubThr})
}
