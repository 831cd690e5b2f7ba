package main

import (
	"math/big"
	"strings"

	"github.com/ing-bank/zkrp/bulletproofs"
)

var realBP = []string{"bulletproofs (all)", "crypto/p256 with go-ethereum's secp256k1", "util", "util/bn", "util/byteconversion", "encoding/json", "crypto/rand.Int"}
var stubNet = []string{"network, clocks and timers (discrete events)", "prover's disk (in memory, with sync points)", "entropy source (crypto/rand.Reader)", "nodes' message handling (retransmission until acknowledged)"}
var assumeCrypto = []string{
	"discrete logarithms are hard and SHA-256 has no exploitable structure: only strategies in the simulator's library are tried",
	"the simulator's own copy of the messages it sent is the ground truth for what honest nodes produced",
}

// sizes of ranges, small ones (cheap) more often
func bpSize(r *Rand) int64 { return r.Pick(1, 1, 2, 2, 4, 4, 8, 8, 16, 32) }

func inRangeSecret(r *Rand, n int64) *big.Int {
	max := pow2(n)
	switch r.N(8) {
	case 0:
		return big.NewInt(0)
	case 1:
		return new(big.Int).Mod(big.NewInt(1), max)
	case 2:
		return new(big.Int).Sub(max, big.NewInt(1))
	case 3:
		return new(big.Int).Rsh(max, 1)
	case 4:
		v := new(big.Int).Sub(max, big.NewInt(1+r.N64(4)))
		return v.Mod(v, max)
	case 5:
		return new(big.Int).Mod(pow2(r.N64(n)), max)
	case 6:
		return new(big.Int).Mod(big.NewInt(r.Pick(0x55555555, 0xAAAAAAAA, 0x0F0F0F0F, 0xFFFF0000)), max)
	}
	return r.Big(max)
}

func outOfRangeSecret(r *Rand, n int64, order *big.Int) *big.Int {
	max := pow2(n)
	one := big.NewInt(1)
	switch r.N(16) {
	case 0:
		return big.NewInt(-1)
	case 1:
		return new(big.Int).Set(max)
	case 2:
		return new(big.Int).Add(max, one)
	case 3:
		return new(big.Int).Neg(inRangePos(r, n))
	case 4:
		return new(big.Int).Add(max, inRangeSecret(r, n))
	case 5: // congruent modulo the range end
		return new(big.Int).Add(new(big.Int).Mul(max, big.NewInt(1+r.N64(1000))), inRangeSecret(r, n))
	case 6: // congruent modulo a power of two of the machine
		return new(big.Int).Add(pow2(r.Pick(31, 32, 33, 62, 63, 64, 65, 127, 128, 256)+n%2*0), inRangeSecret(r, min64(n, 30)))
	case 7:
		return new(big.Int).Sub(inRangeSecret(r, n), pow2(r.Pick(32, 63, 64, 128, 256)))
	case 8: // congruent modulo the group order
		return new(big.Int).Add(order, inRangeSecret(r, n))
	case 9:
		return new(big.Int).Sub(inRangeSecret(r, n), order)
	case 10:
		k := big.NewInt(2 + r.N64(100))
		return new(big.Int).Add(k.Mul(k, order), inRangeSecret(r, n))
	case 11:
		return new(big.Int).Sub(order, big.NewInt(1+r.N64(4)))
	case 12:
		return new(big.Int).Neg(max)
	case 13:
		return new(big.Int).Add(max, r.Big(new(big.Int).Sub(order, max)))
	case 14:
		return r.Big(pow2(600)).Add(max, r.Big(pow2(600)))
	}
	v := new(big.Int).Sub(new(big.Int).Neg(max), inRangeSecret(r, n))
	return v
}

func min64(a, b int64) int64 {
	if a < b {
		return a
	}
	return b
}

func inRangePos(r *Rand, n int64) *big.Int {
	v := inRangeSecret(r, n)
	if v.Sign() == 0 {
		v = big.NewInt(1)
	}
	return v
}

const (
	nProvers   = 2
	nVerifiers = 2
)

func bpSetups(r *Rand, p *Plan, sizes ...int64) (ids []int64) {
	for _, n := range sizes {
		ids = append(ids, int64(p.op("setup", 0, []int64{n}).ID))
	}
	return
}

// spread gives the operations times, some at the same moment.
func (r *Rand) at() int64 { return 1000 + r.Log(4*rto) }

func bpDraws(n int64) int { return int(5 + 2*n) }

func genC01(r *Rand, p *Plan, _ bool) {
	p.Kind = "net"
	sizes := []int64{bpSize(r)}
	if r.P(1, 3) {
		sizes = append(sizes, r.Pick(1, 2, 4, 8))
	}
	ids := bpSetups(r, p, sizes...)
	k := 1 + r.N(3)
	if sizes[0] >= 16 {
		k = 1 + r.N(2)
	}
	for i := 0; i < k; i++ {
		j := r.N(len(sizes))
		op := p.op("prove", r.at(), []int64{r.N64(nProvers), ids[j]}, inRangeSecret(r, sizes[j]).String())
		entFaults(r, p, op.ID, bpDraws(sizes[j]))
	}
	netFaults(r, p, nVerifiers, nProvers, false)
}

func genC02(r *Rand, p *Plan, _ bool) {
	p.Kind = "net"
	n := bpSize(r)
	ids := bpSetups(r, p, n)
	k := 1 + r.N(3)
	for i := 0; i < k; i++ {
		v := outOfRangeSecret(r, n, secpN)
		if i == 2 && r.P(1, 2) {
			v = inRangeSecret(r, n) // control
		}
		op := p.op("prove", r.at(), []int64{r.N64(nProvers), ids[0]}, v.String())
		if r.P(1, 2) {
			entFaults(r, p, op.ID, bpDraws(n))
		}
	}
	netFaults(r, p, nVerifiers, nProvers, true)
}

// tamperOps adds altering operations on the honest messages.
func tamperOps(r *Rand, p *Plan, count int, kinds ...string) {
	for i := 0; i < count; i++ {
		k := kinds[r.N(len(kinds))]
		p.op(k, 6*rto+r.N64(4*rto), []int64{r.N64(nVerifiers), r.N64(16), r.N64(16), r.N64(64), int64(r.U64() >> 1), r.Pick(0, 0, 0, 1, 2)})
	}
}

func genC03(r *Rand, p *Plan, _ bool) {
	p.Kind = "net"
	n := r.Pick(1, 2, 4, 4, 8, 8, 16)
	if r.P(1, 12) {
		n = 32
	}
	ids := bpSetups(r, p, n)
	for i := 0; i < 2; i++ {
		p.op("prove", r.at(), []int64{r.N64(nProvers), ids[0]}, inRangeSecret(r, n).String())
	}
	if r.P(1, 4) { // a proof of another range
		id := bpSetups(r, p, r.Pick(1, 2, 4))[0]
		op := &p.Ops[len(p.Ops)-1]
		p.op("prove", r.at(), []int64{r.N64(nProvers), id}, inRangeSecret(r, op.n(0)).String())
	}
	count := 8
	if n >= 16 {
		count = 4
	}
	tamperOps(r, p, count, "mutate", "mutate", "mutate", "maul", "maul", "splice", "splice", "swap", "bytes", "digit")
	netFaults(r, p, nVerifiers, nProvers, true)
}

// someone else's secrets: values that the liar's commitment shall open to
func lieValue(r *Rand, n int64) *big.Int {
	v := new(big.Int).Mod(outOfRangeSecret(r, n, secpN), secpN)
	if v.Cmp(pow2(n)) < 0 {
		v.Add(pow2(n), v)
	}
	return v
}

func genC11(r *Rand, p *Plan, _ bool) {
	p.Kind = "net"
	n := r.Pick(1, 2, 2, 4, 4, 8)
	if r.P(1, 12) {
		n = r.Pick(16, 32)
	}
	ids := bpSetups(r, p, n)
	p.op("prove", 1000, []int64{0, ids[0]}, inRangeSecret(r, n).String())
	if r.P(1, 3) {
		p.op("control", 3*rto, []int64{0, 0, 0, n, int64(r.U64() >> 1)}, inRangeSecret(r, n).String())
	}
	first := r.N(len(liarNames))
	for i := 0; i < 8; i++ {
		p.op("forge", 6*rto+r.N64(rto), []int64{r.N64(nVerifiers), 0, int64((first + i*7) % len(liarNames)), n, int64(r.U64() >> 1)}, lieValue(r, n).String())
	}
}

func init() {
	netCfg := WorldCfg{Provers: nProvers, Verifiers: nVerifiers, CtxFree: true}
	register(&Spec{ID: "C01", Gen: genC01, Quick: 2600,
		Run: map[string]func(*Ctx){"net": func(c *Ctx) {
			cfg := netCfg
			cfg.Live = true
			runWorld(c, bpProto{}, cfg)
		}},
		Rule: "An execution counts as non-trivial if at least one network, disk or crash fault, re-encoding or chosen entropy value took effect.",
		Real: realBP, Stub: stubNet})
	register(&Spec{ID: "C02", Gen: genC02, Quick: 2600,
		Run: map[string]func(*Ctx){"net": func(c *Ctx) {
			cfg := netCfg
			cfg.MaxAttempts = 2
			cfg.PanicOK = true
			runWorld(c, bpProto{}, cfg)
		}},
		Rule: "An execution counts as non-trivial if a prover ran on an out-of-range secret (it was refused, or its proof was delivered).",
		Real: realBP, Stub: stubNet, Assume: assumeCrypto})
	register(&Spec{ID: "C03", Gen: genC03, Quick: 1800,
		Run: map[string]func(*Ctx){"net": func(c *Ctx) {
			cfg := netCfg
			cfg.MaxAttempts = 2
			cfg.PanicOK = true
			cfg.NoIntactCheck = true
			runWorld(c, bpProto{}, cfg)
		}},
		Rule: "An execution counts as non-trivial if at least one altered message reached a verifier.",
		Real: realBP, Stub: stubNet, Assume: assumeCrypto})
	register(&Spec{ID: "C11", Gen: genC11, Quick: 900,
		Run: map[string]func(*Ctx){"net": func(c *Ctx) {
			cfg := netCfg
			cfg.MaxAttempts = 1
			cfg.PanicOK = true
			cfg.NoIntactCheck = true
			cfg.Altered = func(w *World, ctxID int, obj any, b []byte, what string) {
				if what == "control" {
					c.count("control-accepted")
					return
				}
				p := obj.(*bulletproofs.BulletProof)
				if w.cores[coreBP(p)] != nil {
					return
				}
				c.fail("forged-accepted:"+strings.TrimPrefix(what, "forge:"), "a verifier accepted the proof of a dishonest prover (%s) for the range [0, 2^%d)", what, p.Params.N)
			}
			runWorld(c, bpProto{}, cfg)
		}},
		Rule: "An execution counts as non-trivial if at least one forged message reached a verifier.",
		Real: realBP, Stub: append([]string{"dishonest provers (the simulator's own implementation)"}, stubNet...), Assume: assumeCrypto})
}
