package ccs08

import "math/big"

// Exports for the simulator (added at build time by an overlay, never part of the repository).

type VerifCCS08 = ccs08

func VerifSetSecret(z *ccs08, x, r *big.Int) { z.x, z.r = x, r }
