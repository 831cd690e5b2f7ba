package main

import (
	"math/big"
)

// An independent model of secp256k1, on affine coordinates.

type refPt struct{ x, y *big.Int } // nil x: the point at infinity

var refG = refPt{
	bigHex("79BE667EF9DCBBAC55A06295CE870B07029BFCDB2DCE28D959F2815B16F81798"),
	bigHex("483ADA7726A3C4655DA4FBFC0E1108A8FD17B448A68554199C47D08FFB10D4B8"),
}

func (a refPt) String() string {
	if a.x == nil {
		return "inf"
	}
	return "(" + a.x.String() + "," + a.y.String() + ")"
}

func (a refPt) add(b refPt) refPt {
	if a.x == nil {
		return b
	}
	if b.x == nil {
		return a
	}
	l := new(big.Int)
	if a.x.Cmp(b.x) == 0 {
		s := new(big.Int).Add(a.y, b.y)
		if s.Mod(s, secpP).Sign() == 0 {
			return refPt{}
		}
		l.Mul(a.x, a.x).Mul(l, big.NewInt(3))
		l.Mul(l, new(big.Int).ModInverse(new(big.Int).Lsh(a.y, 1), secpP))
	} else {
		d := new(big.Int).Sub(b.x, a.x)
		l.Sub(b.y, a.y).Mul(l, d.ModInverse(d.Mod(d, secpP), secpP))
	}
	l.Mod(l, secpP)
	x := new(big.Int).Mul(l, l)
	x.Sub(x, a.x).Sub(x, b.x).Mod(x, secpP)
	y := new(big.Int).Sub(a.x, x)
	y.Mul(y, l).Sub(y, a.y).Mod(y, secpP)
	return refPt{x, y}
}

func (a refPt) mul(k *big.Int) refPt {
	k = new(big.Int).Mod(k, secpN)
	var out refPt
	for i := k.BitLen() - 1; i >= 0; i-- {
		out = out.add(out)
		if k.Bit(i) == 1 {
			out = out.add(a)
		}
	}
	return out
}

var refPoints = map[string]refPt{}

// refPoint is k times the base point.
func refPoint(k *big.Int) refPt {
	k = new(big.Int).Mod(k, secpN)
	s := k.String()
	if p, ok := refPoints[s]; ok {
		return p
	}
	if len(refPoints) > 5000 {
		refPoints = map[string]refPt{}
	}
	p := refG.mul(k)
	refPoints[s] = p
	return p
}
