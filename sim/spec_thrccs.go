package main

import (
	"fmt"
	"math/big"
	"reflect"
	"strings"

	"github.com/ing-bank/zkrp/ccs08"
	"github.com/ing-bank/zkrp/crypto/bbsignatures"
	"github.com/ing-bank/zkrp/crypto/bn256"
)

// Threads that share issuer parameters, commitment randomness and proof objects (C15).

type ccsEnv struct {
	Sets    []any // *paramsSet
	SetOf   [][]int64
	ULs     []any // *paramsUL
	Ends    []*big.Int
	Zs      []*ccs08.VerifCCS08 // interval objects after Setup
	Bounds  [][2]int64
	Rs      []*big.Int // commitment randomness
	Proofs  []ccsProofIn
	Keys    []*bbsignatures.Keypair
	Secrets []*big.Int
}

type ccsProofIn struct {
	Kind   string // set ul interval
	Params int
	Proof  any // *proofSet, *proofUL, *ccs08
	Want   int
}

func callSet[P, T any](f func(int64, *big.Int, P) (T, error), params any, x int64, r *big.Int) (any, error) {
	q, err := f(x, r, *params.(*P))
	return &q, err
}

func callUL2[P, T any](f func(x, r *big.Int, p P) (T, error), params any, v, r *big.Int) (any, error) {
	q, err := f(v, r, *params.(*P))
	return &q, err
}

func callVerify[T, P any](f func(*T, *P) (bool, error), proof, params any) (bool, error) {
	return f(proof.(*T), params.(*P))
}

func ptrTo[T any](v T, err error) (any, error) { return &v, err }

func (e *ccsEnv) secret(i int64) *big.Int {
	if len(e.Secrets) == 0 {
		return new(big.Int)
	}
	return e.Secrets[int(i)%len(e.Secrets)]
}

func (e *ccsEnv) r(i int64) *big.Int {
	if len(e.Rs) == 0 {
		return big.NewInt(7)
	}
	return e.Rs[int(i)%len(e.Rs)]
}

func (e *ccsEnv) prove(kind string, pi int, i, ri int64) (p any, in bool, err error) {
	switch kind {
	case "set":
		s := e.SetOf[pi]
		if i >= refusedSecret { // no member
			x, known := i, map[int64]bool{}
			for _, m := range s {
				known[m] = true
			}
			for known[x] {
				x++
			}
			p, err = callSet(ccs08.ProveSet, e.Sets[pi], x, e.r(ri))
			return p, false, err
		}
		p, err = callSet(ccs08.ProveSet, e.Sets[pi], s[int(i)%len(s)], e.r(ri))
		return p, true, err
	case "ul":
		x := e.secret(i)
		in = x.Sign() >= 0 && x.Cmp(e.Ends[pi]) < 0
		p, err = callUL2(ccs08.ProveUL, e.ULs[pi], x, e.r(ri))
		return p, in, err
	case "interval":
		x := e.secret(i)
		in = x.Cmp(big.NewInt(e.Bounds[pi][0])) >= 0 && x.Cmp(big.NewInt(e.Bounds[pi][1])) < 0
		z := *e.Zs[pi] // shares parameters with the other threads
		ccs08.VerifSetSecret(&z, x, e.r(ri))
		err = z.Prove()
		return &z, in, err
	}
	return nil, false, nil
}

func (e *ccsEnv) verify(kind string, pi int, p any) (bool, error) {
	switch kind {
	case "set":
		return callVerify(ccs08.VerifySet, p, e.Sets[pi])
	case "ul":
		return callVerify(ccs08.VerifyUL, p, e.ULs[pi])
	}
	return p.(*ccs08.VerifCCS08).Verify()
}

func (e *ccsEnv) count(kind string) int {
	switch kind {
	case "set":
		return len(e.Sets)
	case "ul":
		return len(e.ULs)
	}
	return len(e.Zs)
}

// refusedSecret and above: secrets that are to be refused.
const refusedSecret = 1000

func buildCCSEnv(c *Ctx) *ccsEnv {
	e := &ccsEnv{}
	for _, op := range c.plan.Ops {
		if !envOp(op.K) {
			continue
		}
		op := op
		c.must(op.K, c.stream(op, bnN), func() { e.build(c, op) })
	}
	return e
}

func (e *ccsEnv) build(c *Ctx, op Op) {
	check := func(err error) {
		if err != nil {
			c.fail(op.K+"-refused", "%s %v %v failed: %v", op.K, op.N, op.S, err)
		}
	}
	switch op.K {
	case "env-set":
		p, err := ptrTo(ccs08.SetupSet(append([]int64(nil), op.N...)))
		check(err)
		e.Sets, e.SetOf = append(e.Sets, p), append(e.SetOf, append([]int64(nil), op.N...))
	case "env-ul":
		p, err := ptrTo(ccs08.SetupUL(op.n(0), op.n(1)))
		check(err)
		e.ULs = append(e.ULs, p)
		e.Ends = append(e.Ends, new(big.Int).Exp(big.NewInt(op.n(0)), big.NewInt(op.n(1)), nil))
	case "env-interval":
		z := new(ccs08.VerifCCS08)
		check(z.Setup(op.n(0), op.n(1)))
		e.Zs, e.Bounds = append(e.Zs, z), append(e.Bounds, [2]int64{op.n(0), op.n(1)})
	case "env-secret":
		e.Secrets = append(e.Secrets, bigOf(op.s(0)))
	case "env-r":
		e.Rs = append(e.Rs, bigOf(op.s(0)))
	case "env-key":
		kp, err := bbsignatures.Keygen()
		check(err)
		e.Keys = append(e.Keys, &kp)
	case "env-proof": // S = kind; N = params, secret, r
		n := e.count(op.s(0))
		if n == 0 {
			return
		}
		pi := int(op.n(0)) % n
		p, in, err := e.prove(op.s(0), pi, op.n(1), op.n(2))
		if !in {
			return
		}
		check(err)
		e.Proofs = append(e.Proofs, ccsProofIn{op.s(0), pi, p, 1})
	case "env-altered":
		if len(e.Proofs) == 0 {
			return
		}
		x := e.Proofs[int(op.n(0))%len(e.Proofs)]
		r := NewRand(uint64(op.n(1)))
		q := reflect.New(reflect.TypeOf(x.Proof).Elem()) // shares what is not altered
		q.Elem().Set(reflect.ValueOf(x.Proof).Elem())
		parts := []any{q.Interface()}
		if x.Kind == "interval" {
			parts = ulParts(q.Interface())
		}
		if len(parts) == 0 {
			return
		}
		if r.P(1, 3) { // fewer digits than expected
			var ls []Slot
			for _, s := range slots(parts[r.N(len(parts))]) {
				if s.V.Kind() == reflect.Slice && s.V.Len() > 0 {
					ls = append(ls, s)
				}
			}
			if len(ls) > 0 {
				s := ls[r.N(len(ls))]
				s.V.Set(s.V.Slice(0, r.N(s.V.Len())))
				x.Proof, x.Want = q.Interface(), -1
				e.Proofs = append(e.Proofs, x)
				return
			}
		}
		var ss []Slot
		for _, s := range slots(parts[r.N(len(parts))]) {
			if s.Kind == "scalar" || s.Kind == "g1" || s.Kind == "g2" || s.Kind == "gt" {
				if len(s.Path) > 0 && s.Path[len(s.Path)-1] != ']' { // elements of slices are shared
					ss = append(ss, s)
				}
			}
		}
		if len(ss) == 0 {
			return
		}
		mutateSlot(ss, r.N(len(ss)), int64(r.N(8)), int64(r.U64()>>1), nil, bnN)
		x.Proof, x.Want = q.Interface(), 0
		e.Proofs = append(e.Proofs, x)
	}
}

func ccsExec(env any, op Op) (res opResult) {
	e := env.(*ccsEnv)
	verdict := func(ok bool, err error, want int) {
		res.text += fmt.Sprint("verdict ", ok, " error ", err != nil, ";")
		res.coarse = res.text
		if want == 1 && !ok {
			res.problem = fmt.Sprintf("an honest proof was rejected (error %v)", err)
		}
		if want == -1 && ok {
			res.problem = "an invalid proof was accepted"
		}
	}
	switch op.K {
	case "verify":
		if len(e.Proofs) == 0 {
			return
		}
		x := e.Proofs[int(op.n(0))%len(e.Proofs)]
		ok, err := e.verify(x.Kind, x.Params, x.Proof)
		verdict(ok, err, x.Want)
	case "prove", "prove-verify": // S = kind; N = params, secret, r
		kind := op.s(0)
		n := e.count(kind)
		if n == 0 {
			return
		}
		pi := int(op.n(0)) % n
		p, in, err := e.prove(kind, pi, op.n(1), op.n(2))
		res.coarse = fmt.Sprint("error ", err != nil)
		res.failed = err != nil
		res.text = res.coarse
		if in && err != nil {
			res.problem = "a valid secret was refused: " + err.Error()
		}
		if err != nil {
			return
		}
		if kind == "interval" {
			t := ""
			for _, q := range ulParts(p) {
				t += fingerprint(q)
			}
			res.text += fmt.Sprintf("%x", hash64(t))
		} else {
			res.text += fmt.Sprintf("%x", hash64(fingerprint(p)))
		}
		if op.K == "prove-verify" {
			ok, err := e.verify(kind, pi, p)
			t := res.text
			res.text = ""
			want := -1
			if in {
				want = 1
			}
			verdict(ok, err, want)
			res.text += t
		}
	case "setup-set":
		s := append([]int64(nil), op.N...)
		if len(s) == 0 && len(e.SetOf) > 0 {
			s = e.SetOf[0]
		}
		p, err := ptrTo(ccs08.SetupSet(s))
		res.text = fmt.Sprint(err != nil, fingerprintNow(p))
		res.coarse = fmt.Sprint(err != nil)
		res.failed = err != nil
	case "setup-ul":
		p, err := ptrTo(ccs08.SetupUL(op.n(0), op.n(1)))
		res.text = fmt.Sprint(err != nil, fingerprintNow(p))
		res.coarse = fmt.Sprint(err != nil)
		res.failed = err != nil
	case "setup-interval":
		z := new(ccs08.VerifCCS08)
		err := z.Setup(op.n(0), op.n(1))
		res.text = fmt.Sprint(err != nil, fingerprintNow(z))
		res.coarse = fmt.Sprint(err != nil)
		res.failed = err != nil
	case "keygen":
		kp, err := bbsignatures.Keygen()
		res.text = fmt.Sprint(err != nil, fingerprint(&kp))
		res.coarse = fmt.Sprint(err != nil)
		res.failed = err != nil
	case "sign-verify":
		if len(e.Keys) == 0 {
			return
		}
		kp := e.Keys[0]
		m := e.secret(op.n(0))
		sig, err := bbsignatures.Sign(m, kp.Privk)
		if err != nil {
			res.text, res.coarse = "error", "error"
			return
		}
		res.text = fmt.Sprintf("%x", sig.Marshal())
		ok, err := bbsignatures.VerifVerify(sig, m, kp.Pubk)
		verdict(ok, err, 1)
	case "fixed": // computations with constants that everybody uses
		k := big.NewInt(op.n(0))
		g1, g2 := new(bn256.G1).ScalarBaseMult(k), new(bn256.G2).ScalarBaseMult(k)
		res.text = fmt.Sprintf("%x%x", g1.Marshal(), g2.Marshal())
		res.coarse = res.text
		if op.n(1) == 1 {
			res.text += fmt.Sprintf("%x", bn256.Pair(g1, g2).Marshal())
		}
	}
	return
}

func ccsThreads(c *Ctx) {
	runThreads(&threadWorld{c: c, order: bnN, env: environment[ccsEnv](c, "ccs"), exec: ccsExec})
}

func genCCSThreads(r *Rand, p *Plan) (threads int, est int64) {
	p.Cold = genCold(r, p)
	kind := r.PickS("set", "set", "set", "ul", "ul", "interval")
	mixed := r.P(1, 6)
	refused := r.P(1, 3) // some operations are refused
	which := func() int64 {
		if refused && kind == "set" && r.P(1, 3) {
			return refusedSecret + r.N64(1000)
		}
		return r.N64(4)
	}
	nr := 1 + r.N(2)
	for i := 0; i < nr; i++ {
		p.op("env-r", 0, nil, blinding(r, bnN).String())
	}
	per := int64(4_000_000)
	opTicks := int64(0)
	add := func(kind string) {
		switch kind {
		case "set":
			s := genSet(r)
			if len(s) > 3 {
				s = s[:3]
			}
			p.op("env-set", 0, s)
			opTicks += per
		case "ul":
			u, l := r.Pick(2, 2, 3, 4), r.Pick(1, 1, 2, 3)
			p.op("env-ul", 0, []int64{u, l})
			end := new(big.Int).Exp(big.NewInt(u), big.NewInt(l), nil)
			p.op("env-secret", 0, nil, r.Big(end).String())
			p.op("env-secret", 0, nil, new(big.Int).Sub(end, big.NewInt(1)).String())
			if refused {
				p.op("env-secret", 0, nil, new(big.Int).Add(end, r.Big(end)).String())
			}
			opTicks += per * l
		case "interval":
			a, b := r.N64(20), 21+r.N64(30)
			p.op("env-interval", 0, []int64{a, b})
			p.op("env-secret", 0, nil, big.NewInt(a+r.N64(b-a)).String())
			if refused {
				p.op("env-secret", 0, nil, big.NewInt(r.Pick(a-1, b)).String())
			}
			opTicks += per * 2
		}
	}
	add(kind)
	if mixed {
		add(r.PickS("set", "ul"))
		p.op("env-key", 0, nil)
	}
	for i, n := 0, r.N(3); i < n; i++ {
		p.op("env-proof", 0, []int64{0, r.N64(4), r.N64(2)}, kind)
	}
	if r.P(1, 3) || refused {
		p.op("env-altered", 0, []int64{r.N64(2), int64(r.U64() >> 1)})
	}
	threads = 2 + r.N(2)
	ops := 1
	if kind == "set" && r.P(1, 3) {
		ops = 2
	}
	first := -1
	for t := 0; t < threads; t++ {
		for i := 0; i < ops; i++ {
			k := r.N(10)
			if p.Cold && i == 0 { // the same first use in all threads
				if first < 0 {
					first = k
				}
				if r.P(3, 4) {
					k = first
				}
			}
			if kind == "set" && r.P(1, 8) {
				k = 9
			}
			switch k {
			case 0, 1, 2:
				p.top(t, "prove-verify", []int64{0, which(), r.N64(2)}, kind)
			case 3, 4, 5:
				p.top(t, "prove", []int64{0, which(), r.N64(2)}, kind)
			case 6, 7:
				p.top(t, "verify", []int64{r.N64(3)})
			case 8:
				p.top(t, "fixed", []int64{r.Log(1 << 40), r.N64(2)})
			case 9:
				w := r.N(6)
				if kind == "set" && r.P(1, 2) {
					w = 4
				}
				switch w {
				case 4:
					p.top(t, "setup-set", nil) // of the set that everybody uses
				case 5:
					a := r.N64(10)
					p.top(t, "setup-interval", []int64{a, r.Pick(a-1, a-1, 0, 1)}) // no interval
				case 0:
					p.top(t, "setup-set", []int64{r.N64(100)})
				case 1:
					p.top(t, "setup-ul", []int64{2, 1})
				case 2:
					p.top(t, "keygen", nil)
				case 3:
					p.top(t, "sign-verify", []int64{r.N64(3)})
				}
			}
			est += opTicks
		}
	}
	genSched(r, p, threads, est)
	return
}

func genC15(r *Rand, p *Plan, _ bool) {
	p.Kind = "threads"
	genCCSThreads(r, p)
}

// ---- C19: operations that die ----

func genC19(r *Rand, p *Plan, thorough bool) {
	switch r.N(13) {
	case 0, 1, 2, 3:
		switch r.N(8) {
		case 0:
			genC09(r, p, thorough)
			p.Kind = "net-generic"
		case 1:
			genC12(r, p, thorough)
			p.Kind = "net-set"
		default:
			genC01(r, p, thorough)
			p.Kind = "net"
		}
		for i, n := 0, 1+r.N(3); i < n; i++ {
			crashFault(r, p, true)
		}
	case 4, 5, 6:
		p.Kind = "kill-bp"
		th, est := genBPThreads(r, p)
		genKills(r, p, th, est/int64(th)+1)
	case 7:
		genC05(r, p, thorough)
		p.Kind = "kill-bp"
		genKills(r, p, 4, 40000)
	case 8, 9, 10:
		p.Kind = "threads"
		genC18(r, p, thorough)
		p.Kind = "kill-points"
		genKills(r, p, 4, int64(r.Pick(100, 500)))
	case 11:
		genC17Threads(r, p)
		p.Kind = "kill-group"
		genKills(r, p, 4, 100000)
	default:
		p.Kind = "kill-ccs"
		th, est := genCCSThreads(r, p)
		genKills(r, p, th, est/int64(th)+1)
	}
	if strings.HasPrefix(p.Kind, "kill") && r.P(1, 3) { // what the death interrupts may be the first use of everything
		p.Cold = true
	}
}

func init() {
	register(&Spec{ID: "C15", Gen: genC15, Quick: 320, QuickRace: 30, Fresh: 8,
		Run:  map[string]func(*Ctx){"threads": ccsThreads},
		Rule: "An execution counts as non-trivial if at least two threads ran and the schedule preempted at least one of them.",
		Real: realCCS, Stub: stubThr})
	register(&Spec{ID: "C19", Gen: genC19, Quick: 1000, Fresh: 20,
		Run: map[string]func(*Ctx){
			"kill-bp": bpThreads, "kill-ccs": ccsThreads,
			"kill-points": pThreads, "kill-group": regThreads,
			"net": func(c *Ctx) {
				runWorld(c, bpProto{}, WorldCfg{Provers: nProvers, Verifiers: nVerifiers, CtxFree: true, Live: true})
			},
			"net-generic": func(c *Ctx) { specs["C09"].Run["net"](c) },
			"net-set":     func(c *Ctx) { specs["C12"].Run["set"](c) }},
		Rule: "An execution counts as non-trivial if at least one thread was killed in mid-operation, or at least one network, disk or crash fault took effect.",
		Real: append(append([]string{}, realBP...), realCCS...), Stub: append(append([]string{}, stubThr...), stubNet...)})
}
