package bbsignatures

import (
	"math/big"

	"github.com/ing-bank/zkrp/crypto/bn256"
)

// Exports for the simulator (added at build time by an overlay, never part of the repository).

func VerifVerify(signature *bn256.G2, m *big.Int, pubk *bn256.G1) (bool, error) {
	return verify(signature, m, pubk)
}
