package main

import (
	"bytes"
	"fmt"
	"math/big"

	"github.com/ing-bank/zkrp/crypto/bn256"
	refbn "verifsim/ref/bn"
)

// The reference model of the pairing groups: an element is a number modulo the order. Encodings
// come from an independent implementation (verifsim/ref/bn).

var refP = refbn.P

// modelKey limits what is remembered.
var modelCache = map[string][]byte{}

func cached(k string, f func() []byte) []byte {
	if b, ok := modelCache[k]; ok {
		return b
	}
	if len(modelCache) > 4000 {
		modelCache = map[string][]byte{}
	}
	b := f()
	modelCache[k] = b
	return b
}

// modelG1 is the encoding of the k-th power of the repository's generator (1, -2).
func modelG1(k *big.Int) []byte {
	k = bnMod(k)
	if k.Sign() == 0 {
		return nil
	}
	return cached("1:"+k.String(), func() []byte { return new(refbn.G1).ScalarBaseMult(bnSub(new(big.Int), k)).Marshal() })
}

func modelG2(k *big.Int) []byte {
	k = bnMod(k)
	if k.Sign() == 0 {
		return nil
	}
	return cached("2:"+k.String(), func() []byte { return new(refbn.G2).ScalarBaseMult(k).Marshal() })
}

var refE *refbn.GT

func modelGT(k *big.Int) []byte {
	k = bnMod(k)
	if refE == nil {
		refE = refbn.Pair(new(refbn.G1).ScalarBaseMult(big.NewInt(-1)), new(refbn.G2).ScalarBaseMult(big.NewInt(1)))
	}
	if k.Sign() == 0 {
		return make([]byte, 384) // compared specially
	}
	return cached("t:"+k.String(), func() []byte { return new(refbn.GT).ScalarMult(refE, k).Marshal() })
}

func gtOne() []byte {
	b := make([]byte, 384)
	b[383] = 1
	return b
}

func allZero(b []byte) bool {
	for _, x := range b {
		if x != 0 {
			return false
		}
	}
	return true
}

// isIdentityG1 accepts both encodings of the identity: zeros and (0, 1).
func isIdentityG1(b []byte) bool {
	return len(b) == 64 && (allZero(b) || allZero(b[:63]) && b[63] == 1)
}

func isIdentityG2(b []byte) bool { return len(b) == 128 && allZero(b) }

// sameAs tells whether an encoding is that of the k-th power of the generator.
func sameAs(kind string, b []byte, k *big.Int) bool {
	k = bnMod(k)
	switch kind {
	case "g1":
		if k.Sign() == 0 {
			return isIdentityG1(b)
		}
		return bytes.Equal(b, modelG1(k))
	case "g2":
		if k.Sign() == 0 {
			return isIdentityG2(b)
		}
		return bytes.Equal(b, modelG2(k))
	case "gt":
		if k.Sign() == 0 {
			return bytes.Equal(b, gtOne())
		}
		return bytes.Equal(b, modelGT(k))
	}
	return false
}

// elem is an element of one of the groups.
type elem struct {
	kind string
	g1   *bn256.G1
	g2   *bn256.G2
	gt   *bn256.GT
	k    *big.Int // what the model says
}

func (e *elem) marshal() []byte {
	switch e.kind {
	case "g1":
		return e.g1.Marshal()
	case "g2":
		return e.g2.Marshal()
	}
	return e.gt.Marshal()
}

func (e *elem) String() string {
	switch e.kind {
	case "g1":
		return e.g1.String()
	case "g2":
		return e.g2.String()
	}
	return e.gt.String()
}

// refDecode judges bytes with the reference model: canon is the encoding of the element that they
// stand for, coordinates taken modulo the field size; identity reports the identity.
func refDecode(kind string, b []byte) (canon []byte, identity, ok bool) {
	n := 64
	if kind == "g2" {
		n = 128
	}
	if len(b) != n {
		return nil, false, false
	}
	if kind == "g1" && isIdentityG1(b) || kind == "g2" && isIdentityG2(b) {
		return b, true, true
	}
	canon = make([]byte, n)
	for i := 0; i < n; i += 32 {
		x := new(big.Int).SetBytes(b[i : i+32])
		x.Mod(x, refP)
		x.FillBytes(canon[i : i+32])
	}
	if allZero(canon) { // the reference takes it for the identity, the curve equation does not
		return canon, false, false
	}
	var err error
	if kind == "g1" {
		_, err = new(refbn.G1).Unmarshal(append([]byte(nil), canon...))
	} else {
		_, err = new(refbn.G2).Unmarshal(append([]byte(nil), canon...))
	}
	return canon, false, err == nil
}

// ---- arithmetic for making points outside of the subgroup ----

type fp2 struct{ i, r *big.Int } // i*I + r

func fp(x *big.Int) *big.Int { return x.Mod(x, refP) }

func (a fp2) mul(b fp2) fp2 {
	rr := new(big.Int).Mul(a.r, b.r)
	rr.Sub(rr, new(big.Int).Mul(a.i, b.i))
	ii := new(big.Int).Mul(a.r, b.i)
	ii.Add(ii, new(big.Int).Mul(a.i, b.r))
	return fp2{fp(ii), fp(rr)}
}

func (a fp2) add(b fp2) fp2 {
	return fp2{fp(new(big.Int).Add(a.i, b.i)), fp(new(big.Int).Add(a.r, b.r))}
}

// sqrt in Fp2, p = 3 mod 4, by the complex method.
func (a fp2) sqrt() (fp2, bool) {
	norm := fp(new(big.Int).Add(new(big.Int).Mul(a.r, a.r), new(big.Int).Mul(a.i, a.i)))
	s := new(big.Int).ModSqrt(norm, refP)
	if s == nil {
		return fp2{}, false
	}
	half := new(big.Int).ModInverse(big.NewInt(2), refP)
	for k := 0; k < 2; k++ {
		t := fp(new(big.Int).Mul(new(big.Int).Add(a.r, s), half))
		x := new(big.Int).ModSqrt(t, refP)
		if x != nil && x.Sign() != 0 {
			y := new(big.Int).ModInverse(fp(new(big.Int).Lsh(x, 1)), refP)
			c := fp2{fp(y.Mul(y, a.i)), x}
			if q := c.mul(c); q.i.Cmp(a.i) == 0 && q.r.Cmp(a.r) == 0 {
				return c, true
			}
		}
		s = fp(new(big.Int).Neg(s))
	}
	return fp2{}, false
}

var twistBr = fp2{
	bigDec("266929791119991161246907387137283842545076965332900288569378510910307636690"),
	bigDec("19485874751759354771024239261021720505790618469301721065564631296452457478373"),
}

func bigDec(s string) *big.Int {
	v, ok := new(big.Int).SetString(s, 10)
	if !ok {
		panic(s)
	}
	return v
}

func fp2Bytes(xs ...fp2) []byte {
	var out []byte
	for _, x := range xs {
		b := make([]byte, 64)
		x.i.FillBytes(b[:32])
		x.r.FillBytes(b[32:])
		out = append(out, b...)
	}
	return out
}

// twistPoint returns the encoding of a random point of the twist, which is almost never in G2.
func twistPointBytes(r *Rand) []byte {
	for {
		x := fp2{r.Big(refP), r.Big(refP)}
		if r.P(1, 4) {
			x.i = new(big.Int)
		}
		y, ok := x.mul(x).mul(x).add(twistBr).sqrt()
		if ok {
			return fp2Bytes(x, y)
		}
	}
}

// g1Point returns the encoding of a random point y^2 = x^3 + b.
func curvePointBytes(r *Rand, b int64) []byte {
	for {
		x := r.Big(refP)
		t := fp(new(big.Int).Mul(x, x))
		t = fp(t.Mul(t, x))
		t = fp(t.Add(t, big.NewInt(b)))
		y := new(big.Int).ModSqrt(t, refP)
		if y != nil {
			out := make([]byte, 64)
			x.FillBytes(out[:32])
			y.FillBytes(out[32:])
			return out
		}
	}
}

// recipe computes the k-th power of a generator in one of many ways. The result's coordinates are
// rarely affine. It runs in the code under test.
func recipe(kind string, k *big.Int, how int64, r *Rand) *elem {
	k = bnMod(k)
	e := &elem{kind: kind, k: k}
	a := r.Big(bnN)
	b := bnSub(k, a)
	switch kind {
	case "g1":
		base := func(x *big.Int) *bn256.G1 { return new(bn256.G1).ScalarBaseMult(x) }
		switch how % 8 {
		case 0:
			e.g1 = base(k)
		case 1:
			e.g1 = new(bn256.G1).Add(base(a), base(b))
		case 2:
			e.g1 = new(bn256.G1).Neg(base(bnSub(new(big.Int), k)))
		case 3:
			e.g1 = base(a)
			e.g1.Add(e.g1, base(b))
		case 4:
			if a.Sign() == 0 {
				a = big.NewInt(1)
			}
			e.g1 = new(bn256.G1).ScalarMult(base(a), bnMul(k, bnInv(a)))
		case 5:
			e.g1 = base(new(big.Int).Sub(k, bnN)) // a negative scalar
		case 6:
			h := bnMul(k, bnInv(big.NewInt(2)))
			e.g1 = base(h)
			e.g1.Add(e.g1, e.g1)
		case 7:
			e.g1 = base(bnSub(new(big.Int), k))
			e.g1.Neg(e.g1)
		}
	case "g2":
		base := func(x *big.Int) *bn256.G2 { return new(bn256.G2).ScalarBaseMult(x) }
		switch how % 8 {
		case 0:
			e.g2 = base(k)
		case 1:
			e.g2 = new(bn256.G2).Add(base(a), base(b))
		case 2:
			e.g2 = new(bn256.G2).Neg(base(bnSub(new(big.Int), k)))
		case 3:
			e.g2 = base(a)
			e.g2.Add(e.g2, base(b))
		case 4:
			if a.Sign() == 0 {
				a = big.NewInt(1)
			}
			e.g2 = new(bn256.G2).ScalarMult(base(a), bnMul(k, bnInv(a)))
		case 5:
			e.g2 = base(new(big.Int).Sub(k, bnN))
		case 6:
			h := bnMul(k, bnInv(big.NewInt(2)))
			e.g2 = base(h)
			e.g2.Add(e.g2, e.g2)
		case 7:
			e.g2 = base(bnSub(new(big.Int), k))
			e.g2.Neg(e.g2)
		}
	case "gt":
		g1 := func(x *big.Int) *bn256.G1 { return new(bn256.G1).ScalarBaseMult(x) }
		g2 := func(x *big.Int) *bn256.G2 { return new(bn256.G2).ScalarBaseMult(x) }
		one := big.NewInt(1)
		switch how % 6 {
		case 0:
			e.gt = bn256.Pair(g1(k), g2(one))
		case 1:
			e.gt = bn256.Pair(g1(one), g2(k))
		case 2:
			if a.Sign() == 0 {
				a = one
			}
			e.gt = bn256.Pair(g1(a), g2(bnMul(k, bnInv(a))))
		case 3:
			e.gt = new(bn256.GT).Add(bn256.Pair(g1(a), g2(one)), bn256.Pair(g1(one), g2(b)))
		case 4:
			e.gt = new(bn256.GT).ScalarMult(bn256.Pair(g1(one), g2(one)), k)
		case 5:
			e.gt = new(bn256.GT).Neg(bn256.Pair(g1(bnSub(new(big.Int), k)), g2(one)))
		}
	}
	return e
}

// remarkable draws a scalar below the order that has something special about it.
func remarkable(r *Rand, order *big.Int) *big.Int {
	switch r.N(10) {
	case 0:
		return new(big.Int)
	case 1:
		return big.NewInt(1)
	case 2:
		return new(big.Int).Sub(order, big.NewInt(1))
	case 3:
		return big.NewInt(2)
	case 4:
		return new(big.Int).Mod(pow2(r.N64(256)), order)
	case 5:
		return big.NewInt(r.N64(1000))
	case 6:
		return new(big.Int).Sub(order, big.NewInt(r.N64(1000)))
	}
	return r.Big(order)
}

var _ = fmt.Sprint
