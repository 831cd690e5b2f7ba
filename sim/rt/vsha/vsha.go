// Package vsha stands in for crypto/sha256 in instrumented code. It computes the same hashes; while
// the simulator asks for it, it also records them, so that a dishonest prover learns the challenges
// that the verifier derives from a message, however the code computes them.
package vsha

import (
	"crypto/sha256"
	"encoding"
	"hash"
)

const (
	Size      = sha256.Size
	Size224   = sha256.Size224
	BlockSize = sha256.BlockSize
)

var (
	on  bool
	log [][]byte
)

// Record returns the digests that f computes.
func Record(f func()) [][]byte {
	log, on = nil, true
	defer func() { on = false }()
	f()
	return log
}

type rec struct{ hash.Hash }

func (r rec) Sum(b []byte) []byte {
	out := r.Hash.Sum(b)
	if on {
		log = append(log, append([]byte{}, out[len(b):]...))
	}
	return out
}

func (r rec) MarshalBinary() ([]byte, error) {
	return r.Hash.(encoding.BinaryMarshaler).MarshalBinary()
}

func (r rec) UnmarshalBinary(b []byte) error {
	return r.Hash.(encoding.BinaryUnmarshaler).UnmarshalBinary(b)
}

func New() hash.Hash    { return rec{sha256.New()} }
func New224() hash.Hash { return sha256.New224() }

func Sum256(b []byte) [Size]byte {
	out := sha256.Sum256(b)
	if on {
		log = append(log, append([]byte{}, out[:]...))
	}
	return out
}

func Sum224(b []byte) [Size224]byte { return sha256.Sum224(b) }
