package main

import (
	"errors"
	"io"
	"math/big"

	"verifsim/rt"
)

// Stream is the simulated entropy source of one thread.
type Stream struct {
	seed    uint64
	pos     uint64
	reads   int // calls of Read
	bytes   int64
	faults  []EFault
	rec     [][]byte
	recOn   bool
	topZero bool
	fired   map[string]int64
	flipReq int // request whose byte flipPos is flipped, if flip
	flipPos int
	flip    bool
	path    []int // the flip is for the fork's fork ... with these numbers
	forks   []*Stream
}

// EFault is a fault of the entropy source.
type EFault struct {
	K       string // err eof part short set
	At      int
	Persist bool
	Val     *big.Int
	Len     int
}

var errEntropy = errors.New("simulated failure of the entropy source")

func NewStream(seed uint64, parts ...any) *Stream {
	return &Stream{seed: hash64(append([]any{seed, "entropy"}, parts...)...), fired: map[string]int64{}}
}

// Fork gives a child thread its own stream.
func (s *Stream) Fork(i int) any {
	f := &Stream{seed: hash64(s.seed, "fork", i), fired: map[string]int64{}, recOn: s.recOn, topZero: s.topZero, faults: s.faults}
	if s.flip && len(s.path) > 0 && s.path[0] == i {
		f.flip, f.flipReq, f.flipPos, f.path = true, s.flipReq, s.flipPos, s.path[1:]
	}
	s.forks = append(s.forks, f)
	return f
}

func (s *Stream) fill(p []byte) {
	for i := range p {
		w := mix(s.seed + s.pos/8*0x632be59bd9b4e019)
		p[i] = byte(w >> (8 * (s.pos % 8)))
		s.pos++
	}
}

func (s *Stream) Read(p []byte) (int, error) {
	if len(p) == 0 {
		return 0, nil
	}
	i := s.reads
	s.reads++
	n := len(p)
	for _, f := range s.faults {
		hit := f.At == i || f.Persist && i >= f.At
		if !hit {
			continue
		}
		switch f.K {
		case "err":
			s.fired["entropy-error"]++
			return 0, errEntropy
		case "eof":
			s.fired["entropy-eof"]++
			return 0, io.EOF
		case "part":
			s.fired["entropy-partial-error"]++
			k := f.Len % len(p)
			s.fill(p[:k])
			s.bytes += int64(k)
			return k, errEntropy
		case "short":
			s.fired["entropy-short-read"]++
			k := 1 + f.Len%len(p)
			if k < n {
				n = k
			}
		case "set":
			s.fired["entropy-chosen-value"]++
			b := f.Val.Bytes()
			if len(b) > len(p) {
				b = b[len(b)-len(p):]
			}
			for j := range p {
				p[j] = 0
			}
			copy(p[len(p)-len(b):], b)
			s.pos += uint64(len(p))
			s.bytes += int64(len(p))
			s.record(p)
			return len(p), nil
		}
	}
	s.fill(p[:n])
	if s.topZero && n == len(p) && n >= 16 {
		p[0] = 0
	}
	if s.flip && len(s.path) == 0 && s.flipReq == i {
		j := s.flipPos
		if j < 0 {
			j += n
		}
		if j >= 0 && j < n {
			p[j] ^= 0x01
		}
	}
	s.bytes += int64(n)
	s.record(p[:n])
	return n, nil
}

func (s *Stream) record(p []byte) {
	if s.recOn {
		s.rec = append(s.rec, append([]byte(nil), p...))
	}
}

// total returns what the stream and its forks recorded.
func (s *Stream) total() (reads int, bytes int64, rec [][]byte) {
	reads, bytes, rec = s.reads, s.bytes, s.rec
	for _, f := range s.forks {
		r, b, x := f.total()
		reads, bytes, rec = reads+r, bytes+b, append(rec, x...)
	}
	return
}

// locate returns where the read with number i of total's order is: forks' numbers and the read there.
func (s *Stream) locate(i int) (path []int, at int) {
	if i < s.reads {
		return nil, i
	}
	i -= s.reads
	for k, f := range s.forks {
		n, _, _ := f.total()
		if i < n {
			path, at = f.locate(i)
			return append([]int{k}, path...), at
		}
		i -= n
	}
	return nil, i
}

var outside = NewStream(1, "outside")

func simRead(p []byte) (int, error) {
	if t := rt.Current(); t != nil {
		if s, ok := t.Stream.(*Stream); ok && s != nil {
			return s.Read(p)
		}
	}
	return outside.Read(p)
}

func init() { rt.Entropy = simRead }

// stream returns the entropy of an operation, with the plan's chosen values ("ent" faults:
// operation, draw, value) in place.
func (c *Ctx) stream(op Op, order *big.Int, what ...any) *Stream {
	s := NewStream(c.plan.Seed, append([]any{op.ID}, what...)...)
	for _, f := range c.faults("ent") {
		if f.n(0) == int64(op.ID) {
			v := chosen(f.n(2), order)
			s.faults = append(s.faults, EFault{K: "set", At: int(f.n(1)), Val: v, Persist: f.n(3) == 1})
		}
		if f.n(0) == -int64(op.ID) { // short reads
			s.faults = append(s.faults, EFault{K: "short", At: int(f.n(1)), Len: int(f.n(2)), Persist: f.n(3) == 1})
		}
	}
	for _, f := range c.faults("entfail") { // operation, mode, read, persistent, length
		if f.n(0) == int64(op.ID) {
			s.faults = append(s.faults, EFault{K: []string{"err", "eof", "part"}[f.n(1)%3], At: int(f.n(2)), Persist: f.n(3) == 1, Len: int(f.n(4))})
		}
	}
	return s
}

// chosen returns the i-th remarkable value below order.
func chosen(i int64, order *big.Int) *big.Int {
	switch i {
	case 0:
		return big.NewInt(0)
	case 1:
		return big.NewInt(1)
	case 2:
		return new(big.Int).Sub(order, big.NewInt(1))
	case 3:
		return big.NewInt(2)
	case 4:
		return new(big.Int).Sub(order, big.NewInt(2))
	}
	if i < 300 {
		v := pow2(i - 5)
		if v.Cmp(order) < 0 {
			return v
		}
		return new(big.Int).Sub(order, big.NewInt(i))
	}
	return new(big.Int).Mod(big.NewInt(i), order)
}

func (c *Ctx) absorb(s *Stream) {
	for _, k := range []string{"entropy-error", "entropy-eof", "entropy-partial-error", "entropy-short-read", "entropy-chosen-value"} {
		if n := s.fired[k]; n > 0 {
			c.st.C["fault:"+k] += n
			s.fired[k] = 0
		}
	}
	for _, f := range s.forks {
		c.absorb(f)
	}
}
