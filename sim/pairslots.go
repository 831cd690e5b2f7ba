package main

import (
	"fmt"
	"math/big"
	"reflect"

	"github.com/ing-bank/zkrp/crypto/bn256"
)

func g2Inf() *bn256.G2 { return new(bn256.G2).ScalarBaseMult(new(big.Int)) }

// mutatePairing changes an element of one of the pairing groups.
func mutatePairing(s Slot, a int64, r *Rand) string {
	k := r.Big(bn256.Order)
	one := big.NewInt(1)
	switch s.Kind {
	case "g1":
		p, _ := s.V.Interface().(*bn256.G1)
		if p == nil {
			return s.Path
		}
		p = deepCopy(p)
		var q *bn256.G1
		switch a % 6 {
		case 0:
			q = new(bn256.G1).ScalarBaseMult(new(big.Int))
		case 1:
			q = new(bn256.G1).Neg(p)
		case 2:
			q = new(bn256.G1).ScalarBaseMult(k)
		case 3:
			q = new(bn256.G1).Add(p, new(bn256.G1).ScalarBaseMult(one))
		case 4:
			q = new(bn256.G1).Add(p, new(bn256.G1).ScalarBaseMult(k))
		case 5:
			q = new(bn256.G1).ScalarMult(p, big.NewInt(2))
		}
		s.V.Set(reflect.ValueOf(q))
	case "g2":
		p, _ := s.V.Interface().(*bn256.G2)
		if p == nil {
			return s.Path
		}
		p = deepCopy(p)
		var q *bn256.G2
		switch a % 6 {
		case 0:
			q = g2Inf()
		case 1:
			q = new(bn256.G2).ScalarMult(p, new(big.Int).Sub(bn256.Order, one))
		case 2:
			q = new(bn256.G2).ScalarBaseMult(k)
		case 3:
			q = new(bn256.G2).Add(p, new(bn256.G2).ScalarBaseMult(one))
		case 4:
			q = new(bn256.G2).Add(p, new(bn256.G2).ScalarBaseMult(k))
		case 5:
			q = new(bn256.G2).ScalarMult(p, big.NewInt(2))
		}
		s.V.Set(reflect.ValueOf(q))
	case "gt":
		p, _ := s.V.Interface().(*bn256.GT)
		if p == nil {
			return s.Path
		}
		p = deepCopy(p)
		var q *bn256.GT
		switch a % 5 {
		case 0:
			q = new(bn256.GT).ScalarMult(p, new(big.Int))
		case 1:
			q = new(bn256.GT).Neg(p)
		case 2:
			q = new(bn256.GT).ScalarMult(p, k)
		case 3:
			q = new(bn256.GT).Add(p, gtBase())
		case 4:
			q = new(bn256.GT).Add(p, p)
		}
		s.V.Set(reflect.ValueOf(q))
	default:
		return s.Path
	}
	return fmt.Sprintf("%s~%d", s.Path, a%10)
}

func gtBase() *bn256.GT {
	return bn256.Pair(new(bn256.G1).ScalarBaseMult(big.NewInt(1)), new(bn256.G2).ScalarBaseMult(big.NewInt(1)))
}
