package main

import (
	"crypto/rand"
	"fmt"
	"math/big"
	"reflect"
	"strings"

	"github.com/ing-bank/zkrp/bulletproofs"
	"github.com/ing-bank/zkrp/ccs08"
	"github.com/ing-bank/zkrp/crypto/bbsignatures"
	"github.com/ing-bank/zkrp/crypto/bn256"
	"github.com/ing-bank/zkrp/crypto/p256"
)

// The entropy world: operations whose random source fails (C07), and what proofs reveal about the
// randomness that went into them (C08).

type entEnv struct {
	B       bpEnv
	C       ccsEnv
	gbounds [][2]int64
	bounds  [2]int64
	z       []*ccs08.VerifCCS08 // provers' interval objects, which failed operations leave behind
}

func buildEntEnv(c *Ctx) *entEnv {
	e := &entEnv{}
	for _, op := range c.plan.Ops {
		if !envOp(op.K) {
			continue
		}
		op := op
		if op.K == "env-interval" {
			e.bounds = [2]int64{op.n(0), op.n(1)}
		}
		if op.K == "env-gparams" {
			e.gbounds = append(e.gbounds, [2]int64{op.n(0), op.n(1)})
		}
		order := bnN
		if strings.HasSuffix(op.K, "params") {
			order = secpN
		}
		c.must(op.K, c.stream(op, order), func() {
			if order == secpN {
				e.B.build(c, op)
			} else {
				e.C.build(c, op)
			}
		})
	}
	for _, z := range e.C.Zs {
		q := *z
		e.z = append(e.z, &q)
	}
	return e
}

// entProof executes an operation that draws randomness. S = operation, secret, commitment randomness.
func (e *entEnv) run(op Op) (obj any, err error, ran bool) {
	x, r := bigOf(op.s(1)), bigOf(op.s(2))
	ran = true
	switch op.s(0) {
	case "keygen":
		kp, er := bbsignatures.Keygen()
		return &kp, er, true
	case "random-g1":
		k, g, er := bn256.RandomG1(rand.Reader)
		return []any{k, g}, er, true
	case "random-g2":
		k, g, er := bn256.RandomG2(rand.Reader)
		return []any{k, g}, er, true
	case "setup-set":
		p, er := ptrTo(ccs08.SetupSet(op.N[2:]))
		return p, er, true
	case "setup-ul":
		p, er := ptrTo(ccs08.SetupUL(op.n(2), op.n(3)))
		return p, er, true
	case "setup-interval":
		z := new(ccs08.VerifCCS08)
		er := z.Setup(op.n(2), op.n(3))
		return z, er, true
	case "range":
		if len(e.B.Params) > 0 {
			p := e.B.Params[0]
			q, er := bulletproofs.Prove(x, *p)
			return &q, er, true
		}
	case "generic":
		if len(e.B.GParams) > 0 {
			q, er := proveGenericWith(bulletproofs.ProveGeneric, x, e.B.GParams[0])
			return &q, er, true
		}
	case "set":
		if len(e.C.Sets) > 0 {
			q, er := callSet(ccs08.ProveSet, e.C.Sets[0], x.Int64(), r)
			return q, er, true
		}
	case "ul":
		if len(e.C.ULs) > 0 {
			q, er := callUL2(ccs08.ProveUL, e.C.ULs[0], x, r)
			return q, er, true
		}
	case "interval":
		if len(e.z) > 0 {
			z := e.z[0] // the same object again and again
			ccs08.VerifSetSecret(z, x, r)
			er := z.Prove()
			q := *z
			return &q, er, true
		}
	}
	return nil, nil, false
}

func (e *entEnv) verify(op Op, obj any) (bool, error) {
	switch op.s(0) {
	case "range", "generic":
		return verifyBP(obj)
	case "set":
		return callVerify(ccs08.VerifySet, obj, e.C.Sets[0])
	case "ul":
		return callVerify(ccs08.VerifyUL, obj, e.C.ULs[0])
	case "interval":
		return obj.(*ccs08.VerifCCS08).Verify()
	}
	return true, nil
}

// shared is what operations must leave alone.
func (e *entEnv) shared() string { return fingerprint(&e.B) + fingerprint(&e.C) }

func textOf(obj any) string { return fingerprintNow(obj) }

// ---- C07 ----

func failingEntropy(c *Ctx) {
	e := buildEntEnv(c)
	fp := e.shared()
	gl := fingerprint(globals())
	for _, op := range c.plan.Ops {
		if envOp(op.K) {
			continue
		}
		op := op
		var obj any
		var err error
		ran := false
		run := func(s *Stream) Outcome {
			obj, err = nil, nil
			return c.call(s, 0, func() { obj, err, ran = e.run(op) })
		}
		clean := NewStream(c.plan.Seed, op.ID)
		o := run(clean)
		if !ran {
			continue
		}
		if b := o.bad(); b != "" {
			c.fail(op.s(0)+":"+o.class(), "%s with a working random source %s", op.s(0), b)
		}
		if err != nil {
			c.fail(op.s(0)+"-refused", "%s failed although the random source works: %v", op.s(0), err)
		}
		want := textOf(obj)
		reads, _, _ := clean.total()
		spawned := o.Stats.Spawned > 0
		c.event("%s: %d reads, %x", op.s(0), reads, hash64(want))
		again := func(what string) {
			s := NewStream(c.plan.Seed, op.ID)
			o := run(s)
			if b := o.bad(); b != "" {
				c.fail(op.s(0)+"-recovery:"+o.class(), "%s %s %s", op.s(0), what, b)
			}
			if err != nil {
				c.fail(op.s(0)+"-recovery", "%s %s failed: %v", op.s(0), what, err)
			}
			if !spawned && textOf(obj) != want {
				c.fail(op.s(0)+"-recovery-differs", "%s %s gives another result: %s", op.s(0), what, firstDifference(want, textOf(obj)))
			}
			if op.n(0) == 1 || spawned {
				var ok bool
				c.must("verifier", nil, func() { ok, err = e.verify(op, obj) })
				if !ok {
					c.fail(op.s(0)+"-recovery-invalid", "%s %s gives a proof that is rejected", op.s(0), what)
				}
			}
		}
		for _, f := range c.faults("fail") { // operation, mode, read (scaled by 1000), persistent, length
			if f.n(0) != int64(op.ID) || reads == 0 {
				continue
			}
			s := NewStream(c.plan.Seed, op.ID)
			mode := []string{"err", "eof", "part", "short", "short+err"}[f.n(1)%5]
			at := int(f.n(2)) * (reads + 1) / 1000
			if f.n(5) == 1 {
				at = int(f.n(2)) % 4
			}
			fault := EFault{K: mode, At: at, Persist: f.n(3) == 1, Len: int(f.n(4))}
			expectErr := at < reads
			if mode == "short" {
				expectErr = false
			}
			if mode == "short+err" {
				fault.K = "err"
				s.faults = append(s.faults, EFault{K: "short", At: 0, Persist: true, Len: int(f.n(4))})
			}
			// a failure comes before the short reads that it interrupts
			s.faults = append([]EFault{fault}, s.faults...)
			o := run(s)
			fired := s.failures() > 0
			shorts := s.fired["entropy-short-read"] > 0
			c.absorb(s)
			if b := o.bad(); b != "" {
				c.fail(op.s(0)+"-failing:"+o.class(), "%s %s when the random source fails (%s at read %d of %d)", op.s(0), b, mode, at, reads)
			}
			c.event("%s %s at %d -> error %v", op.s(0), mode, at, err != nil)
			if fired || shorts {
				c.st.Nontriv = true
			}
			if fired && err == nil {
				c.fail(op.s(0)+"-ignored", "%s reported success although the random source failed (%s at read %d of %d)", op.s(0), mode, at, reads)
			}
			if expectErr && mode != "short+err" && !spawned && !fired {
				c.fail(op.s(0)+"-reads", "%s did not read what it had read before (read %d of %d)", op.s(0), at, reads)
			}
			if !fired {
				if err != nil {
					c.fail(op.s(0)+"-spurious", "%s failed without a failure of the random source (%s): %v", op.s(0), mode, err)
				}
				if !spawned && textOf(obj) != want {
					c.fail(op.s(0)+"-short-differs", "%s gives another result when reads are short: %s", op.s(0), firstDifference(want, textOf(obj)))
				}
			}
			if now := e.shared(); now != fp {
				c.fail(op.s(0)+"-shared-changed", "%s with a failing random source changed what it shared: %s", op.s(0), firstDifference(fp, now))
			}
			if f.n(4)%3 == 0 {
				again("after the random source recovered")
			}
		}
		again("after the random source recovered")
	}
	if now := e.shared(); now != fp {
		c.fail("shared-changed", "the shared parameters were changed: %s", firstDifference(fp, now))
	}
	if gl != fingerprint(globals()) {
		c.fail("constants-changed", "package variables were changed: %s", firstDifference(gl, fingerprint(globals())))
	}
}

// failures counts failed reads of the stream and its forks.
func (s *Stream) failures() int64 {
	n := s.fired["entropy-error"] + s.fired["entropy-eof"] + s.fired["entropy-partial-error"]
	for _, f := range s.forks {
		n += f.failures()
	}
	return n
}

func (p *Plan) entOps(r *Rand, kinds []string, count int) {
	seen := map[string]bool{}
	n := int64(0)
	var set []int64
	var u, l, a, b, ga, gb int64
	for i := 0; i < count; i++ {
		k := kinds[r.N(len(kinds))]
		if !seen[k] {
			seen[k] = true
			switch k {
			case "range":
				n = r.Pick(1, 2, 4, 4, 8, 8, 16, 32)
				p.op("env-params", 0, []int64{n})
			case "generic":
				ga, gb = genericBounds(r)
				p.op("env-gparams", 0, []int64{ga, gb})
			case "set":
				set = genSet(r)
				p.op("env-set", 0, set)
			case "ul":
				u, l = r.Pick(2, 3, 5), 1+r.N64(3)
				p.op("env-ul", 0, []int64{u, l})
			case "interval":
				a, b = r.N64(50), 51+r.Log(4000)
				p.op("env-interval", 0, []int64{a, b})
			}
		}
		N := []int64{r.N64(2), 0}
		x := new(big.Int)
		switch k {
		case "range":
			x = inRangeSecret(r, n)
		case "generic":
			x = new(big.Int).Add(big.NewInt(ga), r.Big(big.NewInt(gb-ga)))
		case "set":
			x = big.NewInt(set[r.N(len(set))])
		case "ul":
			x = r.Big(new(big.Int).Exp(big.NewInt(u), big.NewInt(l), nil))
		case "interval":
			x = big.NewInt(a + r.N64(b-a))
		case "setup-set":
			s := genSet(r)
			N = append(N, s...)
		case "setup-ul":
			N = append(N, 1+r.N64(4), 1+r.N64(3))
		case "setup-interval":
			N = append(N, r.N64(10), 11+r.Log(1<<40))
		}
		p.op("op", 0, N, k, x.String(), blinding(r, bnN).String())
	}
}

func genC07(r *Rand, p *Plan, _ bool) {
	if r.P(1, 6) {
		genC07Threads(r, p)
		return
	}
	p.Kind = "failing"
	switch r.N(8) {
	case 0:
		p.entOps(r, []string{"setup-interval"}, 1)
	case 1:
		p.entOps(r, []string{"generic"}, 1)
	case 2:
		p.entOps(r, []string{"interval"}, 1)
	default:
		p.entOps(r, []string{"range", "range", "range", "set", "ul", "keygen", "random-g1", "random-g2", "setup-set", "setup-ul"}, 1+r.N(3))
	}
	for _, op := range p.Ops {
		if op.K != "op" {
			continue
		}
		for i, n := 0, 2+r.N(4); i < n; i++ {
			p.fault("fail", int64(op.ID), r.Pick(0, 0, 0, 1, 1, 2, 2, 3, 3, 4), r.N64(1000), r.N64(2), r.N64(64), r.N64(2))
		}
	}
}

// genC07Threads fails the source of some threads while others work with the same parameters.
func genC07Threads(r *Rand, p *Plan) {
	if r.P(1, 3) {
		genCCSThreads(r, p)
		p.Kind = "threads-ccs"
	} else {
		genBPThreads(r, p)
		p.Kind = "threads-bp"
	}
	for _, op := range p.Ops {
		if !envOp(op.K) && r.P(1, 2) {
			p.fault("entfail", int64(op.ID), r.N64(3), r.Log(30), r.N64(2), r.N64(64))
		}
	}
}

// ---- C08 ----

// intervalUL finds the base-u parameters of an interval object.
func intervalUL(z any) any {
	f, ok := field(z, "p")
	if !ok {
		return nil
	}
	g, ok := field(f.Interface(), "p")
	if !ok {
		return nil
	}
	return g.Interface()
}

// required is how many independent blinding values an operation must draw.
func (e *entEnv) required(op Op) int64 {
	one := func(n int64) int64 { return 5 + 2*n }
	switch op.s(0) {
	case "range":
		return one(e.B.Params[0].N)
	case "generic":
		return 2*one(32) - 1
	case "set":
		return 4
	case "ul":
		l, _ := fieldAs[int64](e.C.ULs[0], "l")
		return 1 + 3*l
	case "interval":
		if params := intervalUL(e.C.Zs[0]); params != nil {
			l, _ := fieldAs[int64](params, "l")
			return 2 * (1 + 3*l)
		}
	}
	return 0
}

// piece is an element of a proof that depends on the prover's randomness.
type piece struct {
	path string
	kind string // point scalar g1 g2 gt
	v    reflect.Value
}

func (p piece) text() string {
	s, _ := encodeElement(p.v)
	return s
}

// public tells whether a place of a proof holds something that everybody knows.
func publicPath(path string) bool {
	for _, s := range []string{"Params", "InnerProductProof.U", "InnerProductProof.P", "InnerProductProof.Gg", "InnerProductProof.Hh", "InnerProductProof.N"} {
		if strings.Contains(path, s) {
			return true
		}
	}
	return false
}

func pieces(obj any) []piece {
	var out []piece
	add := func(o any, prefix string) {
		for _, s := range slots(o) {
			if s.Kind == "int" || s.Kind == "slice" || publicPath(s.Path) || s.V.Kind() == reflect.Ptr && s.V.IsNil() {
				continue
			}
			out = append(out, piece{prefix + s.Path, s.Kind, s.V})
		}
	}
	if z, ok := obj.(*ccs08.VerifCCS08); ok {
		for i, q := range ulParts(z) {
			add(q, fmt.Sprintf("half%d.", i+1))
		}
		return out
	}
	add(obj, "")
	return out
}

func coreText(obj any) string {
	s := ""
	for _, p := range pieces(obj) {
		s += p.path + "=" + p.text() + ";"
	}
	return s
}

// challenges are the public numbers of a proof that an observer would multiply with.
func (c *Ctx) challenges(obj any) []*big.Int {
	var out []*big.Int
	half := func(p *bulletproofs.BulletProof) {
		sh := c.shapeOf(p)
		ps := []pt{p.V, p.A, p.S, p.T1, p.T2}
		y, z := sh.chYZ(ps)
		x := sh.chX(ps)
		out = append(out, y, z, x, mulN(z, z), mulN(x, x))
	}
	switch v := obj.(type) {
	case *bulletproofs.BulletProof:
		half(v)
	case *bulletproofs.ProofBPRP:
		half(&v.P1)
		half(&v.P2)
	case *ccs08.VerifCCS08:
		for _, q := range ulParts(v) {
			if x, ok := fieldAs[*big.Int](q, "c"); ok && x != nil {
				out = append(out, x)
			}
		}
	default:
		if x, ok := fieldAs[*big.Int](v, "c"); ok && x != nil {
			out = append(out, x)
		}
	}
	return out
}

// commitsToZero tells whether a (half) proof is about zero.
func (e *entEnv) commitsToZero(op Op, x *big.Int) bool {
	if op.s(0) == "range" {
		return x.Sign() == 0
	}
	for _, b := range e.gbounds {
		y := new(big.Int).Sub(x, big.NewInt(b[0]))
		z := new(big.Int).Sub(x, big.NewInt(b[1]))
		if y.Sign() == 0 || z.Add(z, big.NewInt(1<<32)).Sign() == 0 {
			return true
		}
	}
	return false
}

// zeroFactor tells whether a response of a membership or base-u proof is its blinding value because
// what it hides (a digit, the commitment's randomness) is zero.
func (e *entEnv) zeroFactor(op Op, path string, x, r *big.Int) bool {
	if strings.HasSuffix(path, "zr") {
		return new(big.Int).Mod(r, bnN).Sign() == 0
	}
	if !strings.Contains(path, "zsig") {
		return false
	}
	zeroDigit := func(y *big.Int, u, l int64) bool {
		y = new(big.Int).Set(y)
		for d := new(big.Int); l > 0; l-- {
			y.QuoRem(y, big.NewInt(u), d)
			if d.Sign() == 0 {
				return true
			}
		}
		return false
	}
	switch op.s(0) {
	case "set":
		return new(big.Int).Mod(x, bnN).Sign() == 0
	case "ul":
		u, _ := fieldAs[int64](e.C.ULs[0], "u")
		l, _ := fieldAs[int64](e.C.ULs[0], "l")
		return zeroDigit(x, u, l)
	}
	if params := intervalUL(e.C.Zs[0]); params != nil {
		u, _ := fieldAs[int64](params, "u")
		l, _ := fieldAs[int64](params, "l")
		a, b := e.bounds[0], e.bounds[1]
		ul := new(big.Int).Exp(big.NewInt(u), big.NewInt(l), nil)
		y := new(big.Int).Sub(x, big.NewInt(b))
		return zeroDigit(y.Add(y, ul), u, l) || zeroDigit(new(big.Int).Sub(x, big.NewInt(a)), u, l)
	}
	return false
}

func freshness(c *Ctx) {
	e := buildEntEnv(c)
	for _, op := range c.plan.Ops {
		if envOp(op.K) {
			continue
		}
		op := op
		isBP := op.s(0) == "range" || op.s(0) == "generic"
		order := bnN
		if isBP {
			order = secpN
		}
		prove := func(s *Stream, op Op) any {
			var obj any
			var err error
			var ran bool
			c.must(op.s(0)+"-prover", s, func() { obj, err, ran = e.run(op) })
			if !ran {
				return nil
			}
			if err != nil {
				c.fail(op.s(0)+"-refused", "%s of %s failed: %v", op.s(0), op.s(1), err)
			}
			c.count("proofs")
			return deepCopyAny(obj)
		}
		mk := func(what string) *Stream {
			s := NewStream(c.plan.Seed, op.ID, what)
			s.recOn, s.topZero = true, true
			return s
		}
		s1, s2 := mk("first"), mk("second")
		op2 := op // the second proof's commitment has randomness of its own
		op2.S = append([]string(nil), op.S...)
		for len(op2.S) < 3 {
			op2.S = append(op2.S, "0")
		}
		op2.S[2] = NewRand(c.plan.Seed ^ uint64(op.ID)).Big(bnN).String()
		p1 := prove(s1, op)
		if p1 == nil {
			continue
		}
		p2 := prove(s2, op2)
		c.st.Nontriv = true
		c.event("%s %x %x", op.s(0), hash64(coreText(p1)), hash64(coreText(p2)))

		// enough randomness
		k := e.required(op)
		reads, nbytes, rec := s1.total()
		if nbytes < 32*k {
			c.fail(op.s(0)+"-little-randomness", "%s drew %d bytes for %d independent blinding values", op.s(0), nbytes, k)
		}

		// nothing in common
		have := map[string]string{}
		for _, x := range pieces(p1) {
			have[x.text()] = x.path
		}
		for _, x := range pieces(p2) {
			if q, ok := have[x.text()]; ok {
				c.fail(op.s(0)+"-shared-element", "two %s proofs made with independent randomness share an element (%s and %s)", op.s(0), q, x.path)
			}
		}

		// no secret and no blinding value in the proof
		x := bigOf(op.s(1))
		r := bigOf(op.s(2))
		type known struct {
			what string
			v    *big.Int
			base bool // also as a discrete logarithm
		}
		ks := []known{}
		addK := func(what string, v *big.Int, base bool) {
			v = new(big.Int).Mod(v, order)
			ks = append(ks, known{what, v, base})
			ks = append(ks, known{"minus " + what, new(big.Int).Sub(order, v), false})
		}
		if x.BitLen() > 12 {
			addK("the secret", x, isBP || new(big.Int).Mod(r, bnN).Sign() != 0)
		}
		if !isBP && r.BitLen() > 12 {
			addK("the commitment's randomness", r, false)
		}
		for i, b := range rec {
			if len(b) >= 16 {
				addK(fmt.Sprintf("random value %d", i), new(big.Int).SetBytes(b), true)
			}
		}
		base := len(ks)
		for i, ch := range c.challenges(p1) {
			for j := 0; j < base; j++ {
				ks = append(ks, known{fmt.Sprintf("%s times challenge %d", ks[j].what, i), new(big.Int).Mod(new(big.Int).Mul(ks[j].v, ch), order), false})
			}
			if !isBP { // a digit or a member whose blinding is missing
				for d := int64(1); d < 60; d++ {
					ks = append(ks, known{fmt.Sprintf("minus %d times challenge %d", d, i), new(big.Int).Mod(new(big.Int).Mul(big.NewInt(-d), ch), order), false})
				}
				ks = append(ks, known{fmt.Sprintf("minus the secret times challenge %d", i), new(big.Int).Mod(new(big.Int).Neg(new(big.Int).Mul(x, ch)), order), false})
			}
		}
		bad := map[string]string{}
		for _, q := range ks {
			if q.v.Sign() != 0 {
				bad[q.v.String()] = q.what
			}
		}
		points := map[string]string{}
		c.must("observer", nil, func() {
			for _, q := range ks {
				if !q.base {
					continue
				}
				if isBP {
					points[pointString(mulG(q.v))] = "G to " + q.what
					points[pointString(mulP(hGen(), q.v))] = "H to " + q.what
				} else {
					points[fmt.Sprintf("G2:%x", new(bn256.G2).ScalarBaseMult(q.v).Marshal())] = "g2 to " + q.what
					if strings.HasPrefix(q.what, "random") && len(rec) <= 8 {
						points[fmt.Sprintf("GT:%x", modelGT(q.v))] = "E to " + q.what
					}
				}
			}
			if !isBP { // unblinded signatures
				var params any
				switch op.s(0) {
				case "set":
					params = e.C.Sets[0]
				case "ul":
					params = e.C.ULs[0]
				}
				if params != nil {
					if f, ok := field(params, "signatures"); ok && f.Kind() == reflect.Map {
						it := f.MapRange()
						for it.Next() {
							if s, ok := it.Value().Interface().(*bn256.G2); ok {
								points[fmt.Sprintf("G2:%x", deepCopy(s).Marshal())] = "the issuer's signature"
							}
						}
					}
					if h, ok := fieldAs[*bn256.G2](params, "H"); ok {
						for _, q := range ks[:base] {
							if q.base && strings.HasPrefix(q.what, "random") {
								points[fmt.Sprintf("G2:%x", new(bn256.G2).ScalarMult(h, q.v).Marshal())] = "h to " + q.what
							}
						}
					}
				}
				if r.Sign() != 0 && new(big.Int).Mod(r, bnN).Sign() != 0 && x.Sign() != 0 {
					points[fmt.Sprintf("G2:%x", new(bn256.G2).ScalarBaseMult(x).Marshal())] = "g2 to the secret"
				}
			} else if x.Sign() != 0 {
				points[pointString(mulG(x))] = "G to the secret"
			}
		})
		all := pieces(p1)
		for _, s := range slots(p1) { // wherever it is put
			if s.Kind == "scalar" && !s.V.IsNil() && publicPath(s.Path) {
				all = append(all, piece{s.Path, s.Kind, s.V})
			}
		}
		if _, ok := p1.(*ccs08.VerifCCS08); ok {
			all = pieces(p1)
		}
		for _, q := range all {
			if q.kind == "scalar" {
				v := new(big.Int).Mod(q.v.Interface().(*big.Int), order)
				if what, ok := bad[v.String()]; ok {
					if !isBP && strings.HasSuffix(q.path, "c") && strings.Contains(what, "challenge") {
						continue // the challenge itself
					}
					if !isBP && strings.HasPrefix(what, "random value") && e.zeroFactor(op, q.path, x, r) {
						continue
					}
					c.fail(op.s(0)+"-reveals", "%s of a %s proof is %s", q.path, op.s(0), what)
				}
				continue
			}
			if what, ok := points[q.text()]; ok {
				// a commitment to zero is a power of H
				if isBP && strings.HasSuffix(q.path, "V") && strings.HasPrefix(what, "H to random") && e.commitsToZero(op, x) {
					continue
				}
				c.fail(op.s(0)+"-unblinded", "%s of a %s proof is %s", q.path, op.s(0), what)
			}
		}

		// every random value matters
		core := coreText(p1)
		for _, f := range c.faults("flip") { // operation, read (scaled), position in the read
			if f.n(0) != int64(op.ID) || reads == 0 {
				continue
			}
			s := mk("first")
			s.recOn = false
			nth := int(f.n(1)) * reads / 1000
			if len(rec) > nth && len(rec[nth]) < 16 {
				continue
			}
			s.flip, s.flipPos = true, int(f.n(2))
			s.path, s.flipReq = s1.locate(nth)
			p3 := prove(s, op)
			c.fired("entropy-flipped-bit")
			c.event("flip %d", nth)
			if coreText(p3) == core {
				c.fail(op.s(0)+"-unused-randomness", "random value %d of %d does not influence the %s proof", nth, reads, op.s(0))
			}
		}
		// and each of them matters by itself: no two draws may cancel
		if ok := func() bool {
			if reads == 0 {
				return true
			}
			s := mk("first")
			s.recOn = false
			return coreText(prove(s, op)) == core
		}(); !ok {
			c.count("not-reproducible-from-entropy")
		}
	}
}

func genC08(r *Rand, p *Plan, _ bool) {
	p.Kind = "fresh"
	kind := r.PickS("range", "range", "range", "range", "set", "set", "ul", "ul", "generic", "interval")
	p.entOps(r, []string{kind}, 1)
	for i := range p.Ops {
		op := &p.Ops[i]
		if op.K == "op" && kind == "range" && len(op.S) > 1 && r.P(1, 3) {
			op.S[1] = "0"
		}
	}
	flips := map[string]int{"range": 5, "generic": 2, "set": 4, "ul": 3, "interval": 2}[kind]
	for _, op := range p.Ops {
		if op.K != "op" {
			continue
		}
		for i := 0; i < flips; i++ {
			p.fault("flip", int64(op.ID), r.N64(1000), r.N64(30)+1)
		}
	}
}

func init() {
	all := append(append([]string{}, realBP...), realCCS...)
	register(&Spec{ID: "C07", Gen: genC07, Quick: 500,
		Run:  map[string]func(*Ctx){"failing": failingEntropy, "threads-bp": bpThreads, "threads-ccs": ccsThreads},
		Rule: "An execution counts as non-trivial if at least one read of the random source failed or was short, or threads were preempted.",
		Real: all, Stub: []string{"entropy source (crypto/rand.Reader) with injected failures", "thread scheduling"}})
	register(&Spec{ID: "C08", Gen: genC08, Quick: 800,
		Run:  map[string]func(*Ctx){"fresh": freshness},
		Rule: "An execution counts as non-trivial if at least two proofs were made with independent randomness and compared.",
		Real: all, Stub: []string{"entropy source (crypto/rand.Reader), recorded and with single bits flipped"},
		Assume: []string{"only the listed relations between one element of a proof and public data are tried: being the secret, a drawn value or a product with a challenge, or a base to one of them"}})
}

var _ = p256.CURVE
