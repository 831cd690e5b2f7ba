package bulletproofs

import (
	"math/big"

	"github.com/ing-bank/zkrp/crypto/p256"
)

// Exports for the simulator (added at build time by an overlay, never part of the repository).

func VerifSetupInnerProduct(H *p256.P256, g, h []*p256.P256, c *big.Int, N int64) (InnerProductParams, error) {
	return setupInnerProduct(H, g, h, c, N)
}

func VerifProveInnerProduct(a, b []*big.Int, P *p256.P256, params InnerProductParams) (InnerProductProof, error) {
	return proveInnerProduct(a, b, P, params)
}

func VerifCommitInnerProduct(g, h []*p256.P256, a, b []*big.Int) *p256.P256 {
	return commitInnerProduct(g, h, a, b)
}

//verif:optional hashIP
func VerifHashIP(g, h []*p256.P256, P *p256.P256, c *big.Int, n int64) (*big.Int, error) {
	return hashIP(g, h, P, c, n)
}
