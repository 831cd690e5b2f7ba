package main

import (
	"crypto/sha256"
	"math/big"
	"reflect"

	"github.com/ing-bank/zkrp/crypto/bn256"
	"github.com/ing-bank/zkrp/util/byteconversion"
)

// Dishonest provers of membership and base-u range proofs.

// view is a membership proof (one digit) or base-u proof (l digits).
type view struct {
	V        []*bn256.G2
	a        []*bn256.GT
	D, C     *bn256.G2
	zsig, zv []*big.Int
	c, zr    *big.Int
	ask      func() *big.Int // the verifier's challenge, if only the verifier can tell
}

func loadList[T any](part any, name string) ([]T, bool) {
	f, ok := field(part, name)
	if !ok {
		return nil, false
	}
	if x, ok := f.Interface().(T); ok {
		return []T{x}, true
	}
	x, ok := f.Interface().([]T)
	return append([]T(nil), x...), ok
}

func storeList[T any](part any, name string, xs []T) {
	f, _ := field(part, name)
	if f.Kind() == reflect.Slice {
		f.Set(reflect.ValueOf(xs))
		return
	}
	if len(xs) > 0 {
		f.Set(reflect.ValueOf(xs[0]))
	}
}

func loadView(part any) (v *view, ok bool) {
	v = &view{}
	oks := make([]bool, 8)
	v.V, oks[0] = loadList[*bn256.G2](part, "V")
	v.a, oks[1] = loadList[*bn256.GT](part, "a")
	v.D, oks[2] = fieldAs[*bn256.G2](part, "D")
	v.C, oks[3] = fieldAs[*bn256.G2](part, "C")
	v.zsig, oks[4] = loadList[*big.Int](part, "zsig")
	v.zv, oks[5] = loadList[*big.Int](part, "zv")
	v.c, oks[6] = fieldAs[*big.Int](part, "c")
	v.zr, oks[7] = fieldAs[*big.Int](part, "zr")
	for _, o := range oks {
		if !o {
			return nil, false
		}
	}
	return v, true
}

func (v *view) store(part any) {
	storeList(part, "V", v.V)
	storeList(part, "a", v.a)
	storeList(part, "zsig", v.zsig)
	storeList(part, "zv", v.zv)
	for _, x := range []struct {
		n string
		v any
	}{{"D", v.D}, {"C", v.C}, {"c", v.c}, {"zr", v.zr}} {
		f, _ := field(part, x.n)
		f.Set(reflect.ValueOf(x.v))
	}
}

// what the challenge covers, in order: letters of a, D, C, V
func (v *view) challenge(cover string) *big.Int {
	if v.ask != nil {
		return v.ask()
	}
	d := sha256.New()
	for _, k := range cover {
		switch k {
		case 'a':
			for _, e := range v.a {
				d.Write([]byte(e.String()))
			}
		case 'V':
			for _, e := range v.V {
				d.Write([]byte(e.String()))
			}
		case 'D':
			d.Write([]byte(v.D.String()))
		case 'C':
			d.Write([]byte(v.C.String()))
		}
	}
	c, err := byteconversion.FromByteArray(d.Sum(nil))
	if err != nil {
		return new(big.Int)
	}
	return c.Mod(c, bnN)
}

// coverage learns from an honest proof what the challenge is computed from.
func (v *view) coverage(c *Ctx, part any, verify func()) string {
	try := func(s string) bool { return v.challenge(s).Cmp(new(big.Int).Mod(v.c, bnN)) == 0 }
	if try("aDCV") {
		c.count("challenge-coverage-recovered")
		return "aDCV"
	}
	letters := "aDCV"
	for _, s := range orderedSubsets(4) {
		t := ""
		for _, i := range s {
			t += letters[i : i+1]
		}
		if try(t) {
			c.count("challenge-coverage-recovered")
			return t
		}
	}
	// the hash that is the challenge of the honest proof is the one of other proofs, too
	d := digests(verify)
	for i := range d {
		for _, twos := range []bool{false, true} {
			o := hashOracle{twos: twos}
			if o.numberOf(d[i], bnN).Cmp(new(big.Int).Mod(v.c, bnN)) == 0 {
				old := o.numberOf(d[i], bnN)
				v.ask = func() *big.Int {
					v.store(part)
					if d := digests(verify); i < len(d) {
						return o.numberOf(d[i], bnN)
					}
					return old
				}
				c.count("challenge-asked")
				return "aDCV"
			}
		}
	}
	c.count("challenge-coverage-unknown")
	return "aDCV"
}

var ccsMauls = []string{"C,zr", "D,zr", "a,zv", "V,zv,a", "digits", "D,C", "V,a,zsig", "c,all", "cross", "cross"}

func g2Mul(p *bn256.G2, k *big.Int) *bn256.G2 {
	return new(bn256.G2).ScalarMult(p, new(big.Int).Mod(k, bnN))
}
func g2Base(k *big.Int) *bn256.G2    { return new(bn256.G2).ScalarBaseMult(new(big.Int).Mod(k, bnN)) }
func g2Add(a, b *bn256.G2) *bn256.G2 { return new(bn256.G2).Add(a, b) }
func gtMul(p *bn256.GT, k *big.Int) *bn256.GT {
	return new(bn256.GT).ScalarMult(p, new(big.Int).Mod(k, bnN))
}
func gtAdd(a, b *bn256.GT) *bn256.GT { return new(bn256.GT).Add(a, b) }
func bnMod(x *big.Int) *big.Int      { return new(big.Int).Mod(x, bnN) }
func bnMul(a, b *big.Int) *big.Int   { return bnMod(new(big.Int).Mul(a, b)) }
func bnAdd(a, b *big.Int) *big.Int   { return bnMod(new(big.Int).Add(a, b)) }
func bnSub(a, b *big.Int) *big.Int   { return bnMod(new(big.Int).Sub(a, b)) }
func bnInv(a *big.Int) *big.Int {
	i := new(big.Int).ModInverse(bnMod(a), bnN)
	if i == nil {
		return new(big.Int)
	}
	return i
}

func maulCCS(c *Ctx, x *ccsCtx, part any, name string, r *Rand) bool {
	v, ok := loadView(part)
	H := x.H()
	if !ok || H == nil || len(v.V) == 0 {
		return false
	}
	d := new(big.Int).Add(r.Big(bnSub(bnN, big.NewInt(2))), big.NewInt(1))
	i := r.N(len(v.V))
	switch name {
	case "C,zr":
		v.C = g2Add(v.C, g2Mul(H, d))
		v.zr = bnSub(v.zr, bnMul(d, v.c))
	case "D,zr":
		v.D = g2Add(v.D, g2Mul(H, d))
		v.zr = bnAdd(v.zr, d)
	case "a,zv":
		v.a[i] = gtAdd(v.a[i], gtMul(gtBase(), d))
		v.zv[i] = bnAdd(v.zv[i], d)
	case "V,zv,a":
		v.V[i] = g2Mul(v.V[i], d)
		v.zv[i] = bnMul(v.zv[i], d)
		v.a[i] = gtMul(v.a[i], d)
	case "digits":
		if len(v.V) < 2 {
			return false
		}
		j := r.N(len(v.V) - 1)
		u := big.NewInt(x.u)
		e := func(k int, by *big.Int) { // keeps the second equation of digit k
			v.zsig[k] = bnAdd(v.zsig[k], by)
			q := bn256.Pair(new(bn256.G1).ScalarBaseMult(big.NewInt(1)), v.V[k])
			v.a[k] = gtAdd(v.a[k], gtMul(q, bnSub(new(big.Int), by)))
		}
		e(j, bnMul(u, d))
		e(j+1, bnSub(new(big.Int), d))
	case "cross": // shifts what two digits answer or committed to so that sums over all digits stay
		if len(v.V) < 2 {
			return false
		}
		j := (i + 1 + r.N(len(v.V)-1)) % len(v.V)
		e := func(k int, d *big.Int) {
			if r.P(1, 3) {
				v.a[k] = gtAdd(v.a[k], gtMul(gtBase(), bnSub(new(big.Int), d)))
			} else {
				v.zv[k] = bnAdd(v.zv[k], d)
			}
		}
		e(i, d)
		if r.P(3, 4) {
			d = bnSub(new(big.Int), d)
		}
		w := foldWeight(r.N(6), v.c)
		e(j, bnMul(d, bnMul(w(i), bnInv(w(j)))))
	case "D,C": // D.C'^c
		v.C = g2Add(v.C, g2Base(d))
		v.D = g2Add(v.D, g2Base(bnMul(d, v.c)))
	case "V,a,zsig":
		v.zsig[i] = bnAdd(v.zsig[i], d)
		q := bn256.Pair(new(bn256.G1).ScalarBaseMult(big.NewInt(1)), v.V[i])
		v.a[i] = gtAdd(v.a[i], gtMul(q, bnSub(new(big.Int), d)))
		ui := new(big.Int).Exp(big.NewInt(x.u), big.NewInt(int64(i)), bnN)
		if len(v.V) == 1 && x.kind == "set" {
			ui = big.NewInt(1)
		}
		v.D = g2Add(v.D, g2Base(bnMul(d, ui)))
	case "c,all": // scales the whole proof
		v.c, v.zr = bnMul(v.c, d), bnMul(v.zr, d)
		v.D = g2Mul(v.D, d)
		for k := range v.V {
			v.zsig[k], v.zv[k] = bnMul(v.zsig[k], d), bnMul(v.zv[k], d)
			v.a[k] = gtMul(v.a[k], d)
		}
	}
	v.store(part)
	return true
}

// foldWeight is the weight of an equation in a careless verifier's sum of equations.
func foldWeight(kind int, c *big.Int) func(k int) *big.Int {
	switch kind {
	case 0:
		return func(k int) *big.Int { return big.NewInt(int64(k + 1)) }
	case 1:
		return func(k int) *big.Int { return new(big.Int).Lsh(big.NewInt(1), uint(k)) }
	case 2, 3:
		return func(k int) *big.Int { return new(big.Int).Exp(c, big.NewInt(int64(k)), bnN) }
	}
	return func(k int) *big.Int { return big.NewInt(1) }
}

var ccsForges = []string{"free-c", "V-infinity", "V-late", "D-late", "a-late", "C-late", "identities", "plain-lie", "c-zero", "mixed-infinity",
	"mixed-late", "mixed-a", "more-digits", "reused-c", "D-infinity", "negative-digit",
	"twin-digits", "tied-V", "twin-digits"}

// forgeCCS replaces an honest proof by one for a false statement: the commitment opens to secret
// (or to something the forger does not control).
func forgeCCS(c *Ctx, x *ccsCtx, part any, name string, secret *big.Int, verify func(), r *Rand) bool {
	v, ok := loadView(part)
	H, pk := x.H(), x.pubk()
	if !ok || H == nil || pk == nil || len(v.V) == 0 {
		return false
	}
	cover := v.coverage(c, part, verify)
	n := len(v.V)
	u := x.u
	if x.kind == "set" {
		u = 1
	}
	pow := func(i int) *big.Int { return new(big.Int).Exp(big.NewInt(u), big.NewInt(int64(i)), bnN) }
	// a known signature
	var known int64
	if x.kind == "set" {
		known = x.set[r.N(len(x.set))]
	} else {
		known = r.N64(x.u)
	}
	if name == "more-digits" {
		if x.kind == "set" {
			return false
		}
		n++
		v.V, v.a = append(v.V, nil), append(v.a, nil)
		v.zsig, v.zv = append(v.zsig, nil), append(v.zv, nil)
	}
	digits := make([]*big.Int, n)
	sum := new(big.Int)
	f := 0 // the digit that is none
	if name != "more-digits" && r.P(1, 2) {
		f = r.N(n)
	}
	for i := n - 1; i >= 0; i-- {
		if i == f {
			continue
		}
		digits[i] = big.NewInt(r.N64(x.u))
		if name == "more-digits" && i == n-1 {
			digits[i] = big.NewInt(1 + r.N64(x.u-1))
		}
		sum = bnAdd(sum, bnMul(digits[i], pow(i)))
	}
	digits[f] = bnMul(bnSub(secret, sum), bnInv(pow(f)))
	if name == "more-digits" {
		digits[0] = big.NewInt(r.N64(x.u))
	}
	forged := make([]bool, n)
	for i := range forged {
		forged[i] = i == f
		switch name {
		case "mixed-infinity", "mixed-late", "mixed-a":
		case "more-digits":
			forged[i] = false
		default:
			forged[i] = true
		}
	}
	rnd := func() *big.Int { return new(big.Int).Add(r.Big(bnSub(bnN, big.NewInt(1))), big.NewInt(1)) }
	rc, m := rnd(), rnd()
	s, t, vv, alpha := make([]*big.Int, n), make([]*big.Int, n), make([]*big.Int, n), make([]*big.Int, n)
	total := new(big.Int)
	secret = new(big.Int)
	for i := range s {
		s[i], t[i], vv[i], alpha[i] = rnd(), rnd(), rnd(), rnd()
		total = bnAdd(total, bnMul(s[i], pow(i)))
		secret = bnAdd(secret, bnMul(digits[i], pow(i)))
	}
	E := gtBase()
	G := new(bn256.G1).ScalarBaseMult(big.NewInt(1))
	commit := g2Add(g2Base(secret), g2Mul(H, rc))
	sigma := func(i int) *bn256.G2 { // a signature for digit i, or another one
		d := known
		if digits[i].IsInt64() && x.sig(digits[i].Int64()) != nil {
			d = digits[i].Int64()
		}
		return x.sig(d)
	}
	// the honest first move
	v.C, v.D = commit, g2Add(g2Base(total), g2Mul(H, m))
	for i := range v.V {
		sg := sigma(i)
		if sg == nil {
			return false
		}
		v.V[i] = g2Mul(sg, vv[i])
		v.a[i] = gtAdd(gtMul(bn256.Pair(G, v.V[i]), bnSub(new(big.Int), s[i])), gtMul(E, t[i]))
	}
	answer := func() {
		v.zr = bnSub(m, bnMul(rc, v.c))
		for i := range v.V {
			v.zsig[i] = bnSub(s[i], bnMul(digits[i], v.c))
			v.zv[i] = bnSub(t[i], bnMul(vv[i], v.c))
		}
	}
	lateA := func(i int) { // a from the second equation
		q := gtMul(bn256.Pair(pk, v.V[i]), v.c)
		q = gtAdd(q, gtMul(bn256.Pair(G, v.V[i]), bnSub(new(big.Int), v.zsig[i])))
		v.a[i] = gtAdd(q, gtMul(E, v.zv[i]))
	}
	lateD := func() { // D from the first equation
		z := new(big.Int)
		for i := range v.zsig {
			z = bnAdd(z, bnMul(v.zsig[i], pow(i)))
		}
		v.D = g2Add(g2Mul(v.C, v.c), g2Add(g2Mul(H, v.zr), g2Base(z)))
	}
	switch name {
	case "free-c", "c-zero", "reused-c":
		switch name {
		case "free-c":
			v.c = rnd()
		case "c-zero":
			v.c = new(big.Int)
		}
		v.zr = rnd()
		for i := range v.V {
			v.V[i] = g2Base(rnd())
			v.zsig[i], v.zv[i] = rnd(), rnd()
			lateA(i)
		}
		lateD()
	case "V-infinity", "mixed-infinity":
		for i := range v.V {
			if forged[i] {
				v.V[i] = g2Inf()
				v.a[i] = gtMul(E, t[i])
			}
		}
		v.c = v.challenge(cover)
		answer()
		for i := range v.V {
			if forged[i] {
				v.zv[i] = t[i]
			}
		}
	case "V-late", "mixed-late":
		for i := range v.V {
			if forged[i] {
				v.a[i] = gtAdd(gtMul(bn256.Pair(pk, g2Base(big.NewInt(1))), alpha[i]), gtMul(E, t[i]))
			}
		}
		v.c = v.challenge(cover)
		answer()
		for i := range v.V {
			if forged[i] {
				k := bnMul(alpha[i], bnInv(v.c))
				v.V[i] = g2Base(k)
				v.zv[i] = bnAdd(t[i], bnMul(v.zsig[i], k))
			}
		}
	case "D-late":
		v.c = v.challenge(cover)
		answer()
		for i := range v.V { // answers for the digit that is signed
			d := bnMod(big.NewInt(known))
			if digits[i].IsInt64() && x.sig(digits[i].Int64()) != nil {
				d = bnMod(digits[i])
			}
			v.zsig[i] = bnSub(s[i], bnMul(d, v.c))
		}
		lateD()
	case "a-late", "mixed-a":
		for i := range v.V {
			if forged[i] {
				v.V[i] = g2Base(rnd())
			}
		}
		v.c = v.challenge(cover)
		answer()
		for i := range v.V {
			if forged[i] {
				v.zv[i] = rnd()
				lateA(i)
			}
		}
	case "C-late":
		other := rnd()
		v.D = g2Add(g2Base(other), g2Mul(H, m))
		v.c = v.challenge(cover)
		answer()
		z := new(big.Int)
		for i := range v.V {
			d := bnMod(big.NewInt(known))
			if digits[i].IsInt64() && x.sig(digits[i].Int64()) != nil {
				d = bnMod(digits[i])
			}
			v.zsig[i] = bnSub(s[i], bnMul(d, v.c))
			z = bnAdd(z, bnMul(v.zsig[i], pow(i)))
		}
		q := g2Add(g2Base(bnSub(other, z)), g2Mul(H, bnSub(m, v.zr)))
		v.C = g2Mul(q, bnInv(v.c))
	case "identities":
		v.C, v.D = g2Inf(), g2Inf()
		one := gtMul(E, new(big.Int))
		for i := range v.V {
			v.V[i], v.a[i] = g2Inf(), one
			v.zsig[i], v.zv[i] = new(big.Int), new(big.Int)
		}
		v.zr = new(big.Int)
		v.c = v.challenge(cover)
	case "D-infinity":
		v.D = g2Inf()
		v.c = v.challenge(cover)
		answer()
	case "twin-digits", "tied-V":
		// two digits whose equations hold only together, with weights that a careless verifier could use
		if n < 2 {
			return false
		}
		i := r.N(n)
		j := (i + 1 + r.N(n-1)) % n
		fold := r.N(6)
		for k := range v.V { // all digits signed; the target is the opening the commitment has already
			if !digits[k].IsInt64() || x.sig(digits[k].Int64()) == nil {
				digits[k] = big.NewInt(known)
			}
		}
		signed := new(big.Int)
		for k := range v.V {
			if name == "twin-digits" && (k == i || k == j) {
				digits[k], vv[k] = big.NewInt(known), vv[i]
				if k == j {
					// the same blinded signature on both sides
					vv[k] = vv[i]
				}
			}
			if name == "tied-V" && k == j {
				digits[k] = big.NewInt(known)
			}
			if name != "tied-V" || k != i {
				signed = bnAdd(signed, bnMul(digits[k], pow(k)))
			}
			v.V[k] = g2Mul(x.sig(digits[k].Int64()), vv[k])
			v.a[k] = gtAdd(gtMul(bn256.Pair(G, v.V[k]), bnSub(new(big.Int), s[k])), gtMul(E, t[k]))
		}
		if name == "twin-digits" {
			v.c = v.challenge(cover)
			answer()
			weight := foldWeight(fold, v.c)
			wi, wj := weight(i), weight(j)
			// d in digit i and -d.wi/wj in digit j
			f := bnSub(pow(i), bnMul(bnMul(wi, bnInv(wj)), pow(j)))
			d := bnMul(bnSub(secret, signed), bnInv(f))
			if d.Sign() == 0 {
				return false
			}
			v.zsig[i] = bnSub(v.zsig[i], bnMul(d, v.c))
			v.zsig[j] = bnAdd(v.zsig[j], bnMul(bnMul(d, bnMul(wi, bnInv(wj))), v.c))
			break
		}
		k := rnd()
		weight := foldWeight(fold, big.NewInt(1))
		wi, wj := weight(i), weight(j)
		kj := bnMul(k, bnMul(wi, bnInv(wj)))
		digits[i] = bnMul(bnSub(secret, signed), bnInv(pow(i)))
		v.V[i], v.a[i] = g2Base(k), gtMul(E, t[i])
		v.V[j] = g2Add(v.V[j], g2Base(bnSub(new(big.Int), kj)))
		v.c = v.challenge(cover)
		answer()
		v.zv[i] = bnAdd(t[i], bnMul(k, v.zsig[i]))
		v.zv[j] = bnSub(v.zv[j], bnMul(kj, v.zsig[j]))
	case "plain-lie", "more-digits", "negative-digit":
		v.c = v.challenge(cover)
		answer()
	default:
		return false
	}
	v.store(part)
	return true
}
