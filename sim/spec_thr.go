package main

import (
	"encoding/json"
	"fmt"
	"math/big"
	"reflect"

	"github.com/ing-bank/zkrp/bulletproofs"
	"github.com/ing-bank/zkrp/crypto/p256"
)

// Threads that share range-proof parameters, secrets and proofs (C05, C06).

type bpEnv struct {
	Params  []*bulletproofs.BulletProofSetupParams
	GParams []any // what SetupGeneric returned
	Bounds  [][2]int64
	Proofs  []any
	Want    []int // 1: must be accepted, -1: must not be, 0: either
	Secrets []*big.Int
}

func proveGenericWith[P any](f func(*big.Int, P) (bulletproofs.ProofBPRP, error), secret *big.Int, params any) (bulletproofs.ProofBPRP, error) {
	return f(secret, params.(P))
}

func verifyBP(p any) (bool, error) {
	switch v := p.(type) {
	case *bulletproofs.BulletProof:
		return v.Verify()
	case *bulletproofs.ProofBPRP:
		return v.Verify()
	case *bulletproofs.InnerProductProof:
		return v.Verify()
	}
	return false, nil
}

func newLike(p any) any {
	switch p.(type) {
	case *bulletproofs.BulletProof:
		return new(bulletproofs.BulletProof)
	case *bulletproofs.ProofBPRP:
		return new(bulletproofs.ProofBPRP)
	}
	return new(bulletproofs.InnerProductProof)
}

// buildBPEnv executes the env- operations.
func buildBPEnv(c *Ctx) *bpEnv {
	e := &bpEnv{}
	for _, op := range c.plan.Ops {
		if !envOp(op.K) {
			continue
		}
		op := op
		c.must(op.K, c.stream(op, secpN), func() { e.build(c, op) })
	}
	return e
}

func (e *bpEnv) build(c *Ctx, op Op) {
	check := func(err error) {
		if err != nil {
			c.fail(op.K+"-refused", "%s %v %v failed: %v", op.K, op.N, op.S, err)
		}
	}
	switch op.K {
	case "env-params":
		p, err := bulletproofs.Setup(rangeEnd(op.n(0)))
		check(err)
		e.Params = append(e.Params, &p)
	case "env-gparams":
		p, err := bulletproofs.SetupGeneric(op.n(0), op.n(1))
		check(err)
		e.GParams = append(e.GParams, p)
		e.Bounds = append(e.Bounds, [2]int64{op.n(0), op.n(1)})
	case "env-secret":
		e.Secrets = append(e.Secrets, bigOf(op.s(0)))
	case "env-proof": // of an in-range secret
		if len(e.Params) == 0 {
			return
		}
		p := e.Params[int(op.n(0))%len(e.Params)]
		s := bigOf(op.s(0))
		s.Mod(s, pow2(p.N))
		pr, err := bulletproofs.Prove(s, *p)
		check(err)
		e.Proofs, e.Want = append(e.Proofs, &pr), append(e.Want, 1)
	case "env-gproof":
		if len(e.GParams) == 0 {
			return
		}
		i := int(op.n(0)) % len(e.GParams)
		a, b := e.Bounds[i][0], e.Bounds[i][1]
		s := bigOf(op.s(0))
		s.Mod(s, big.NewInt(b-a)).Add(s, big.NewInt(a))
		pr, err := proveGenericWith(bulletproofs.ProveGeneric, s, e.GParams[i])
		check(err)
		e.Proofs, e.Want = append(e.Proofs, &pr), append(e.Want, 1)
	case "env-inner":
		pr, ok := makeInner(c, op)
		if ok {
			e.Proofs, e.Want = append(e.Proofs, pr), append(e.Want, 1)
		}
	case "env-received": // a proof as it arrives from elsewhere
		if len(e.Proofs) == 0 {
			return
		}
		i := int(op.n(0)) % len(e.Proofs)
		q := newLike(e.Proofs[i])
		if json.Unmarshal(jsonOf(e.Proofs[i]), q) == nil {
			e.Proofs, e.Want = append(e.Proofs, q), append(e.Want, e.Want[i])
		}
	case "env-twin": // a second proof object that shares everything with the first
		if len(e.Proofs) == 0 {
			return
		}
		i := int(op.n(0)) % len(e.Proofs)
		switch v := e.Proofs[i].(type) {
		case *bulletproofs.BulletProof:
			q := *v
			e.Proofs, e.Want = append(e.Proofs, &q), append(e.Want, e.Want[i])
		case *bulletproofs.ProofBPRP:
			q := *v
			e.Proofs, e.Want = append(e.Proofs, &q, &q.P1, &q.P2), append(e.Want, e.Want[i], 0, 0)
		case *bulletproofs.InnerProductProof:
			q := *v
			e.Proofs, e.Want = append(e.Proofs, &q), append(e.Want, e.Want[i])
		}
	case "env-altered":
		if len(e.Proofs) == 0 {
			return
		}
		i := int(op.n(0)) % len(e.Proofs)
		r := NewRand(uint64(op.n(1)))
		q := deepCopyAny(e.Proofs[i])
		ss := slots(q)
		if k := coreSlot(ss, r); r.P(1, 4) && ss[k].V.Kind() == reflect.Ptr { // malformed
			ss[k].V.Set(reflect.Zero(ss[k].V.Type()))
		} else {
			mutateSlot(ss, k, int64(r.N(8)), int64(r.U64()>>1), nil, secpN)
		}
		e.Proofs, e.Want = append(e.Proofs, q), append(e.Want, 0)
	}
}

// makeInner makes an inner product proof: N = n, seed.
func makeInner(c *Ctx, op Op) (*bulletproofs.InnerProductProof, bool) {
	n := op.n(0)
	r := NewRand(uint64(op.n(1)))
	var a, b []*big.Int
	sum := new(big.Int)
	for i := int64(0); i < n; i++ {
		x, y := r.Big(secpN), r.Big(secpN)
		if r.P(1, 6) {
			x = big.NewInt(int64(r.N(2)))
		}
		a, b = append(a, x), append(b, y)
		sum.Add(sum, new(big.Int).Mul(x, y))
	}
	sum.Mod(sum, secpN)
	params, err := bulletproofs.VerifSetupInnerProduct(nil, nil, nil, sum, n)
	if err != nil {
		return nil, false
	}
	P := bulletproofs.VerifCommitInnerProduct(params.Gg, params.Hh, a, b)
	pr, err := bulletproofs.VerifProveInnerProduct(a, b, P, params)
	if err != nil {
		c.fail("inner-refused", "proving an inner product failed: %v", err)
	}
	return &pr, true
}

// bpExec executes an operation of a thread.
func bpExec(env any, op Op) (res opResult) {
	e := env.(*bpEnv)
	verdict := func(p any, want int) {
		ok, err := verifyBP(p)
		res.text += fmt.Sprint("verdict ", ok, " error ", err != nil)
		res.coarse = res.text
		if want == 1 && !ok {
			res.problem = fmt.Sprintf("an honest proof was rejected (error %v)", err)
		}
		if want == -1 && ok {
			res.problem = "an invalid proof was accepted"
		}
	}
	switch op.K {
	case "verify", "encode", "forward":
		if len(e.Proofs) == 0 {
			return
		}
		i := int(op.n(0)) % len(e.Proofs)
		switch op.K {
		case "verify":
			verdict(e.Proofs[i], e.Want[i])
		case "encode":
			b := jsonOf(e.Proofs[i])
			res.text = fmt.Sprint(short(b))
			res.coarse = res.text
		case "forward":
			b := jsonOf(e.Proofs[i])
			q := newLike(e.Proofs[i])
			if err := json.Unmarshal(b, q); err != nil {
				res.text = "does not decode: " + err.Error()
				if e.Want[i] == 1 {
					res.problem = res.text
				}
				return
			}
			verdict(q, e.Want[i])
			if string(jsonOf(q)) != string(b) {
				res.problem = "a forwarded proof encodes differently"
			}
		}
	case "setup":
		p, err := bulletproofs.Setup(rangeEnd(op.n(0)))
		res.text = fmt.Sprint(err != nil, fingerprintNow(&p))
		res.coarse = res.text
		if err != nil || p.N != op.n(0) {
			res.problem = fmt.Sprintf("Setup(2^%d) gave %v, %v", op.n(0), p.N, err)
		}
	case "setup-refused":
		p, err := bulletproofs.Setup(op.n(0))
		res.text = fmt.Sprint(err != nil, fingerprintNow(&p))
		res.coarse = res.text
		res.failed = err != nil
	case "gsetup":
		p, err := bulletproofs.SetupGeneric(op.n(0), op.n(1))
		res.text = fmt.Sprint(err != nil, fingerprintNow(p))
		res.coarse = res.text
	case "prove", "prove-send":
		if len(e.Params) == 0 || len(e.Secrets) == 0 {
			return
		}
		params, secret := e.Params[int(op.n(0))%len(e.Params)], e.Secrets[int(op.n(1))%len(e.Secrets)]
		p, err := bulletproofs.Prove(secret, *params)
		proved(&res, &p, err, inRange(secret, params.N), op.K == "prove-send", verdict)
	case "gprove", "gprove-send":
		if len(e.GParams) == 0 || len(e.Secrets) == 0 {
			return
		}
		i := int(op.n(0)) % len(e.GParams)
		secret := e.Secrets[int(op.n(1))%len(e.Secrets)]
		p, err := proveGenericWith(bulletproofs.ProveGeneric, secret, e.GParams[i])
		in := secret.Cmp(big.NewInt(e.Bounds[i][0])) >= 0 && secret.Cmp(big.NewInt(e.Bounds[i][1])) < 0
		proved(&res, &p, err, in, op.K == "gprove-send", verdict)
	}
	return
}

func proved(res *opResult, p any, err error, in, send bool, verdict func(any, int)) {
	res.text = fmt.Sprint("error ", err != nil)
	res.coarse = res.text
	res.failed = err != nil
	if in && err != nil {
		res.problem = "an in-range secret was refused: " + err.Error()
	}
	if err != nil {
		return
	}
	res.text += fingerprintNow(p)
	if send {
		t, want := res.text, 0
		if in {
			want = 1
		} else {
			want = -1
		}
		q := newLike(p)
		if err := json.Unmarshal(jsonOf(p), q); err != nil {
			res.problem = "a proof does not survive its encoding: " + err.Error()
			return
		}
		res.text = ""
		verdict(q, want)
		res.coarse = res.text
		res.text += t
	}
}

// fingerprintNow describes a thread's own result inside of the run.
func fingerprintNow(x any) string {
	s := fingerprint(x)
	if len(s) > 400 {
		return fmt.Sprintf("%s...%x", s[:300], hash64(s))
	}
	return s
}

func bpThreads(c *Ctx) {
	runThreads(&threadWorld{c: c, order: secpN, env: environment[bpEnv](c, "bp"), exec: bpExec})
}

func (p *Plan) top(t int, k string, n []int64, s ...string) {
	o := p.op(k, 0, n, s...)
	o.T = t
}

// scheduling points of operations, roughly
func bpTicks(k string, n int64) int64 {
	switch k {
	case "prove", "prove-send":
		return 3000 + 9000*n
	case "verify", "forward":
		return 3000 + 6000*n
	case "setup":
		return 500 + 300*n
	}
	return 400000
}

func genericBounds(r *Rand) (int64, int64) {
	switch r.N(4) {
	case 0:
		return 18, 200
	case 1:
		a := r.N64(1<<40) - 1<<39
		return a, a + 1 + r.N64(1<<32)
	case 2:
		return -r.N64(1000) - 1, r.N64(1000) + 1
	}
	return r.N64(1000), 1 << 32
}

// genCold decides whether the concurrent operations are the first ones of their process.
func genCold(r *Rand, p *Plan) bool {
	if p.Race {
		return r.P(1, 2)
	}
	return r.P(1, 6)
}

func genC05(r *Rand, p *Plan, _ bool) {
	p.Kind = "threads"
	p.Cold = genCold(r, p)
	n := r.Pick(1, 2, 4, 4, 8, 8, 16, 32)
	est := int64(0)
	generic := r.P(1, 8)
	if generic {
		a, b := genericBounds(r)
		p.op("env-gparams", 0, []int64{a, b})
		p.op("env-gproof", 0, []int64{0}, r.Big(pow2(40)).String())
		est = 400000
	} else if r.P(1, 4) {
		p.op("env-inner", 0, []int64{n, int64(r.U64() >> 1)})
	} else {
		p.op("env-params", 0, []int64{n})
		p.op("env-proof", 0, []int64{0}, inRangeSecret(r, n).String())
		if r.P(1, 2) { // another proof made with the same parameters
			p.op("env-proof", 0, []int64{0}, inRangeSecret(r, n).String())
		}
	}
	for i, k := 0, r.N(3); i < k; i++ {
		switch r.N(5) {
		case 0, 1:
			p.op("env-altered", 0, []int64{r.N64(4), int64(r.U64() >> 1)})
		case 2:
			p.op("env-received", 0, []int64{r.N64(4)})
		case 3:
			p.op("env-twin", 0, []int64{r.N64(4)})
		case 4:
			if !generic {
				p.op("env-inner", 0, []int64{r.Pick(1, 2, 4, 8), int64(r.U64() >> 1)})
			}
		}
	}
	threads := 1 + r.N(4)
	ops := 1 + r.N(3)
	if generic {
		ops = 1
	}
	target := r.N64(6)
	for t := 0; t < threads; t++ {
		for i := 0; i < ops; i++ {
			x := target
			if r.P(1, 3) {
				x = r.N64(6)
			}
			p.top(t, r.PickS("verify", "verify", "verify", "verify", "forward", "encode"), []int64{x})
			est += bpTicks("verify", n)
		}
	}
	genSched(r, p, threads, est)
}

func genC06(r *Rand, p *Plan, _ bool) {
	p.Kind = "threads"
	genBPThreads(r, p)
}

func genBPThreads(r *Rand, p *Plan) (threads int, est int64) {
	n := r.Pick(1, 2, 4, 4, 8, 8, 16, 32)
	generic := r.P(1, 6)
	p.Cold = genCold(r, p)
	bare := r.P(1, 8) // nothing has been set up yet
	a, b := genericBounds(r)
	if !bare {
		if generic {
			p.op("env-gparams", 0, []int64{a, b})
			s := new(big.Int).Add(big.NewInt(a), r.Big(big.NewInt(b-a)))
			p.op("env-secret", 0, nil, s.String())
			if r.P(1, 3) {
				p.op("env-gproof", 0, []int64{0}, r.Big(pow2(40)).String())
			}
		} else {
			p.op("env-params", 0, []int64{n})
			p.op("env-secret", 0, nil, inRangeSecret(r, n).String())
			if r.P(1, 3) {
				p.op("env-secret", 0, nil, inRangeSecret(r, n).String())
			}
			if r.P(1, 4) {
				p.op("env-secret", 0, nil, outOfRangeSecret(r, n, secpN).String())
			}
			if r.P(1, 2) {
				p.op("env-proof", 0, []int64{0}, inRangeSecret(r, n).String())
			}
			if r.P(1, 3) {
				p.op("env-params", 0, []int64{r.Pick(1, 2, 4, 8)})
			}
		}
	}
	threads = 2 + r.N(3)
	ops := 1 + r.N(2)
	first := ""
	for t := 0; t < threads; t++ {
		for i := 0; i < ops; i++ {
			k := r.PickS("prove", "prove-send", "prove-send", "verify", "encode", "setup", "forward")
			if bare {
				k = "setup"
				if generic && r.P(1, 2) {
					k = "gsetup"
				}
			} else if generic {
				k = r.PickS("gprove", "gprove-send", "gprove", "verify", "encode", "gsetup", "setup")
			}
			if p.Cold && i == 0 { // the same first use in all threads
				if first == "" {
					first = k
				}
				if r.P(3, 4) {
					k = first
				}
			}
			switch k {
			case "setup":
				if r.P(1, 4) {
					p.top(t, "setup-refused", []int64{r.Pick(0, -1, 3, 8, 1<<33, 1<<62, -1<<63, 1, 65535)})
					break
				}
				p.top(t, k, []int64{r.Pick(1, 2, 4, 8, n)})
			case "gsetup":
				p.top(t, k, []int64{a, b})
			case "verify", "encode", "forward":
				p.top(t, k, []int64{r.N64(2)})
			default:
				p.top(t, k, []int64{r.N64(2), r.N64(3)})
			}
			est += bpTicks(k, n)
		}
	}
	genSched(r, p, threads, est)
	return
}

var stubThr = []string{"thread scheduling (one thread runs at a time, preemption before every statement of the repository)", "sync primitives (simulated)", "entropy source (crypto/rand.Reader), one independent stream per operation"}

func init() {
	register(&Spec{ID: "C05", Gen: genC05, Quick: 1100, QuickRace: 140, Fresh: 6,
		Run:  map[string]func(*Ctx){"threads": bpThreads},
		Rule: "An execution counts as non-trivial if at least two threads ran and the schedule preempted at least one of them.",
		Real: realBP, Stub: stubThr})
	register(&Spec{ID: "C06", Gen: genC06, Quick: 850, QuickRace: 100, Fresh: 4,
		Run:  map[string]func(*Ctx){"threads": bpThreads},
		Rule: "An execution counts as non-trivial if at least two threads ran and the schedule preempted at least one of them.",
		Real: realBP, Stub: stubThr})
}

var _ = p256.CURVE
