package main

import (
	"hash/fnv"
	"math/big"
)

// Rand is the simulator's only source of choices: a splitmix64 generator.
type Rand struct{ s uint64 }

func mix(z uint64) uint64 {
	z += 0x9e3779b97f4a7c15
	z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9
	z = (z ^ (z >> 27)) * 0x94d049bb133111eb
	return z ^ (z >> 31)
}

func hash64(parts ...any) uint64 {
	h := fnv.New64a()
	for _, p := range parts {
		switch v := p.(type) {
		case string:
			h.Write([]byte(v))
		case []byte:
			h.Write(v)
		case int:
			put64(h, uint64(v))
		case int64:
			put64(h, uint64(v))
		case uint64:
			put64(h, v)
		default:
			panic("hash64")
		}
		h.Write([]byte{0xff})
	}
	return mix(h.Sum64())
}

func put64(h interface{ Write([]byte) (int, error) }, v uint64) {
	var b [8]byte
	for i := range b {
		b[i] = byte(v >> (8 * uint(i)))
	}
	h.Write(b[:])
}

func NewRand(seed uint64) *Rand { return &Rand{mix(seed)} }

func (r *Rand) U64() uint64 {
	r.s += 0x9e3779b97f4a7c15
	return mix(r.s)
}

// N returns a number in [0, n).
func (r *Rand) N(n int) int {
	if n <= 0 {
		return 0
	}
	return int(r.U64() % uint64(n))
}

func (r *Rand) N64(n int64) int64 {
	if n <= 0 {
		return 0
	}
	return int64(r.U64() % uint64(n))
}

// Range returns a number in [a, b].
func (r *Rand) Range(a, b int) int { return a + r.N(b-a+1) }

// P is true with probability num/den.
func (r *Rand) P(num, den int) bool { return r.N(den) < num }

func (r *Rand) Big(max *big.Int) *big.Int {
	b := make([]byte, len(max.Bytes())+8)
	for i := range b {
		b[i] = byte(r.U64())
	}
	x := new(big.Int).SetBytes(b)
	return x.Mod(x, max)
}

func (r *Rand) Pick(xs ...int64) int64 { return xs[r.N(len(xs))] }

func (r *Rand) PickS(xs ...string) string { return xs[r.N(len(xs))] }

// Log returns a number in [0, max], every order of magnitude equally likely.
func (r *Rand) Log(max int64) int64 {
	bits := 0
	for m := max; m > 0; m >>= 1 {
		bits++
	}
	v := r.N64(int64(1) << uint(r.N(bits+1)))
	if v > max {
		v = max
	}
	return v
}

func pow2(n int64) *big.Int { return new(big.Int).Lsh(big.NewInt(1), uint(n)) }

func bigOf(s string) *big.Int {
	v, ok := new(big.Int).SetString(s, 10)
	if !ok {
		return new(big.Int)
	}
	return v
}
