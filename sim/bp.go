package main

import (
	"bytes"
	"encoding/json"
	"fmt"
	"math/big"
	"reflect"
	"strings"

	"github.com/ing-bank/zkrp/bulletproofs"
	"github.com/ing-bank/zkrp/crypto/p256"
)

// The range proofs of package bulletproofs in the network world. Messages are their JSON encodings.

var secpN = bigHex("FFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFEBAAEDCE6AF48A03BBFD25E8CD0364141")
var secpP = bigHex("FFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFEFFFFFC2F")

func bigHex(s string) *big.Int {
	v, ok := new(big.Int).SetString(s, 16)
	if !ok {
		panic(s)
	}
	return v
}

type bpProto struct{}

func rangeEnd(n int64) int64 { return int64(1) << uint(n) }

func (bpProto) Setup(w *World, op Op) (any, error) {
	var params bulletproofs.BulletProofSetupParams
	var err error
	w.c.must("range-setup", nil, func() { params, err = bulletproofs.Setup(rangeEnd(op.n(0))) })
	if err != nil {
		w.c.fail("setup-refused", "Setup(2^%d) failed: %v", op.n(0), err)
	}
	return &params, nil
}

// inRange tells whether 0 <= v < 2^n.
func inRange(v *big.Int, n int64) bool { return v.Sign() >= 0 && v.Cmp(pow2(n)) < 0 }

func (bpProto) Prove(w *World, op Op, ctx any) (any, error, int) {
	params := ctx.(*bulletproofs.BulletProofSetupParams)
	secret := w.number(op, "secret", bigOf(op.s(0)))
	s := w.c.stream(op, secpN)
	var proof bulletproofs.BulletProof
	var err error
	w.c.must("range-prover", s, func() { proof, err = bulletproofs.Prove(secret, *params) })
	w.c.absorb(s)
	expect := -1
	if inRange(secret, params.N) {
		expect = 1
	}
	w.reuse(op, secret)
	if err == nil && params.N != proof.Params.N {
		w.c.fail("statement-changed", "proof for 2^%d under parameters for 2^%d", proof.Params.N, params.N)
	}
	return &proof, err, expect
}

func (bpProto) Encode(obj any) []byte { return jsonOf(obj) }

func jsonOf(obj any) []byte {
	b, err := json.Marshal(obj)
	if err != nil {
		panic("json: " + err.Error())
	}
	return b
}

func (bpProto) Decode(b []byte) (any, error) {
	var p bulletproofs.BulletProof
	if err := json.Unmarshal(b, &p); err != nil {
		return nil, err
	}
	return &p, nil
}

func (bpProto) Verify(w *World, ctx any, obj any) (bool, error) {
	return obj.(*bulletproofs.BulletProof).Verify()
}

// Recycle decodes a message into an object that was verified before.
func (bpProto) Recycle(dst, src any, b []byte) bool { return recycleJSON(dst, src, b) }

func (bpProto) VerifyOwn(w *World, ctx any, obj any) (bool, error) {
	return obj.(*bulletproofs.BulletProof).Verify()
}

func recycleJSON(dst, src any, b []byte) bool {
	return json.Unmarshal(b, dst) == nil && bytes.Equal(jsonOf(dst), jsonOf(src))
}

func scalarString(x *big.Int, n *big.Int) string {
	if x == nil {
		return "nil"
	}
	return new(big.Int).Mod(x, n).String()
}

func coreBP(p *bulletproofs.BulletProof) string {
	var b strings.Builder
	fmt.Fprintf(&b, "N%d", p.Params.N)
	for _, q := range []*p256.P256{p.V, p.A, p.S, p.T1, p.T2, p.Commit} {
		b.WriteString(pointString(q))
	}
	for _, x := range []*big.Int{p.Taux, p.Mu, p.Tprime, p.InnerProductProof.A, p.InnerProductProof.B} {
		b.WriteString(";" + scalarString(x, secpN))
	}
	for _, q := range p.InnerProductProof.Ls {
		b.WriteString("L" + pointString(q))
	}
	for _, q := range p.InnerProductProof.Rs {
		b.WriteString("R" + pointString(q))
	}
	return b.String()
}

func (bpProto) Core(obj any) string { return coreBP(obj.(*bulletproofs.BulletProof)) }

func (bpProto) Reencode(b []byte, style int64) []byte {
	if style%6 == 0 {
		var p bulletproofs.BulletProof
		if json.Unmarshal(b, &p) != nil {
			return nil
		}
		return jsonOf(&p)
	}
	return reencodeJSON(b, style)
}

// reencodeJSON writes the same document differently.
func reencodeJSON(b []byte, style int64) []byte {
	var out bytes.Buffer
	switch style % 6 {
	case 1:
		if json.Indent(&out, b, " ", "\t") != nil {
			return nil
		}
		return out.Bytes()
	case 2, 3, 4, 5:
		d := json.NewDecoder(bytes.NewReader(b))
		d.UseNumber()
		var v any
		if d.Decode(&v) != nil {
			return nil
		}
		writeJSON(&out, v, style)
		return out.Bytes()
	}
	return append([]byte(nil), b...)
}

func writeJSON(out *bytes.Buffer, v any, style int64) {
	switch x := v.(type) {
	case map[string]any:
		var keys []string
		for k := range x {
			keys = append(keys, k)
		}
		sortStrings(keys)
		if style%2 == 1 {
			for i, j := 0, len(keys)-1; i < j; i, j = i+1, j-1 {
				keys[i], keys[j] = keys[j], keys[i]
			}
		}
		out.WriteString("{")
		for i, k := range keys {
			if i > 0 {
				out.WriteString(", ")
			}
			kb, _ := json.Marshal(k)
			out.Write(kb)
			out.WriteString(" : ")
			writeJSON(out, x[k], style)
		}
		out.WriteString("}\n")
	case []any:
		out.WriteString("[")
		for i, e := range x {
			if i > 0 {
				out.WriteString(",")
			}
			writeJSON(out, e, style)
		}
		out.WriteString("]")
	default:
		b, _ := json.Marshal(x)
		out.Write(b)
	}
}

// ---- tampering ----

func neg(p *p256.P256) *p256.P256 {
	if p == nil || p.X == nil || p.Y == nil || p.IsZero() {
		return new(p256.P256)
	}
	return &p256.P256{X: new(big.Int).Set(p.X), Y: new(big.Int).Mod(new(big.Int).Neg(p.Y), secpP)}
}

func mulG(k *big.Int) *p256.P256               { return new(p256.P256).ScalarBaseMult(k) }
func mulP(p *p256.P256, k *big.Int) *p256.P256 { return new(p256.P256).ScalarMult(p, k) }
func addP(a, b *p256.P256) *p256.P256          { return new(p256.P256).Multiply(a, b) }

func modN(x *big.Int) *big.Int { return new(big.Int).Mod(x, secpN) }
func mulN(a, b *big.Int) *big.Int {
	return modN(new(big.Int).Mul(a, b))
}
func addN(a, b *big.Int) *big.Int { return modN(new(big.Int).Add(a, b)) }

// mutateSlot changes one place of a message. a, b select how.
func mutateSlot(ss []Slot, i int, a, b int64, other []Slot, order *big.Int) string {
	s := ss[i]
	r := NewRand(uint64(b))
	same := func() []Slot {
		var out []Slot
		for _, x := range ss {
			if x.Kind == s.Kind && x.V.Type() == s.V.Type() && x.Path != s.Path {
				out = append(out, x)
			}
		}
		return out
	}
	// from a slot of the same kind in this message or the other one
	if a%10 == 8 {
		if c := same(); len(c) > 0 {
			o := c[r.N(len(c))]
			s.V.Set(deepCopyValue(o.V))
			return s.Path + "=" + o.Path
		}
	}
	if a%10 == 9 {
		if o, ok := findSlot(other, s.Path); ok && o.V.Type() == s.V.Type() {
			s.V.Set(deepCopyValue(o.V))
			return s.Path + "=other"
		}
	}
	switch s.Kind {
	case "point":
		p, _ := s.V.Interface().(*p256.P256)
		var q *p256.P256
		if p == nil {
			p = new(p256.P256)
		}
		switch a % 8 {
		case 0:
			q = new(p256.P256)
		case 1:
			q = neg(p)
		case 2:
			q = mulG(r.Big(secpN))
		case 3:
			q = addP(p, mulG(big.NewInt(1)))
		case 4:
			q = addP(p, mulG(r.Big(secpN)))
		case 5:
			q = &p256.P256{X: big.NewInt(0), Y: big.NewInt(0)}
		case 6:
			h, _ := p256.MapToGroup(bulletproofs.SEEDH)
			q = addP(p, mulP(h, r.Big(secpN)))
		case 7:
			q = mulP(p, big.NewInt(2))
		}
		s.V.Set(reflect.ValueOf(q))
	case "scalar":
		x, _ := s.V.Interface().(*big.Int)
		if x == nil {
			x = new(big.Int)
		}
		var y *big.Int
		switch a % 8 {
		case 0:
			y = big.NewInt(0)
		case 1:
			y = new(big.Int).Add(x, big.NewInt(1))
		case 2:
			y = new(big.Int).Sub(x, big.NewInt(1))
		case 3:
			y = new(big.Int).Neg(x)
		case 4:
			y = new(big.Int).Add(x, order)
		case 5:
			y = r.Big(order)
		case 6:
			y = new(big.Int).Sub(order, x)
		case 7:
			y = new(big.Int).Lsh(x, 1)
		}
		s.V.Set(reflect.ValueOf(y))
	case "int":
		x := s.V.Int()
		s.V.SetInt([]int64{x + 1, x - 1, x * 2, x / 2, 0, -x, x + 32, 1, 64, x - 2}[a%10])
	case "slice":
		n := s.V.Len()
		switch a % 5 {
		case 0:
			if n > 1 {
				i, j := r.N(n), r.N(n)
				t := reflect.ValueOf(s.V.Index(i).Interface())
				s.V.Index(i).Set(s.V.Index(j))
				s.V.Index(j).Set(t)
			}
		case 1:
			if n > 0 {
				s.V.Set(s.V.Slice(0, n-1))
			}
		case 2:
			if n > 0 {
				s.V.Set(reflect.Append(s.V, s.V.Index(r.N(n))))
			}
		case 3:
			s.V.Set(reflect.MakeSlice(s.V.Type(), 0, 0))
		case 4:
			for i, j := 0, n-1; i < j; i, j = i+1, j-1 {
				t := reflect.ValueOf(s.V.Index(i).Interface())
				s.V.Index(i).Set(s.V.Index(j))
				s.V.Index(j).Set(t)
			}
		}
	default:
		return mutatePairing(s, a, r)
	}
	return fmt.Sprintf("%s~%d", s.Path, a%10)
}

func deepCopyValue(v reflect.Value) reflect.Value {
	out := reflect.New(v.Type()).Elem()
	copyInto(out, addressable(v), map[unsafePtr]reflect.Value{})
	return out
}

// swapSlots exchanges two places of the same type.
func swapSlots(ss []Slot, r *Rand) string {
	for k := 0; k < 50; k++ {
		i, j := r.N(len(ss)), r.N(len(ss))
		if i != j && ss[i].V.Type() == ss[j].V.Type() && ss[i].Kind != "slice" && ss[i].Kind != "int" {
			a, b := deepCopyValue(ss[i].V), deepCopyValue(ss[j].V)
			ss[i].V.Set(b)
			ss[j].V.Set(a)
			return ss[i].Path + "<->" + ss[j].Path
		}
	}
	return ""
}

// spliceFields takes some top-level fields (of the structure or of its nested structures) from another message.
func spliceFields(dst, src any, r *Rand) string {
	d, s := reflect.ValueOf(dst).Elem(), reflect.ValueOf(src).Elem()
	return spliceValue(d, s, r, 0)
}

func spliceValue(d, s reflect.Value, r *Rand, depth int) string {
	d, s = open(d), open(s)
	n := d.NumField()
	mask := 1 + r.N(1<<uint(n)-1)
	what := ""
	if r.P(1, 3) {
		mask = 1 << uint(r.N(n)) // a single field
	}
	for i := 0; i < n; i++ {
		if mask&(1<<uint(i)) == 0 {
			continue
		}
		f, g := open(d.Field(i)), open(s.Field(i))
		if f.Kind() == reflect.Struct && depth < 3 && r.P(1, 2) {
			what += d.Type().Field(i).Name + "." + spliceValue(f, g, r, depth+1)
			continue
		}
		f.Set(deepCopyValue(g))
		what += d.Type().Field(i).Name + " "
	}
	return "{" + what + "}"
}

func (bpProto) Tamper(w *World, op Op) ([]byte, int, string) {
	h := w.pick(op.n(1))
	o := w.pick(op.n(2))
	if h == nil || o == nil {
		return nil, 0, ""
	}
	p := deepCopy(h.obj.(*bulletproofs.BulletProof))
	q := deepCopy(o.obj.(*bulletproofs.BulletProof))
	r := NewRand(uint64(op.n(4)))
	what := op.K
	switch op.K {
	case "mutate":
		ss := slots(p)
		for k := int64(0); k < 1+op.n(5); k++ {
			mutateSlot(ss, coreSlot(ss, r), int64(r.N(10)), int64(r.U64()>>1), slots(q), secpN)
		}
	case "swap":
		if swapSlots(slots(p), r) == "" {
			return nil, 0, ""
		}
	case "splice":
		spliceFields(p, q, r)
	case "maul":
		what += mauls[int(op.n(3))%len(mauls)].name
		if !maul(w.c, p, int(op.n(3)), r) {
			return nil, 0, ""
		}
	case "bytes":
		b := append([]byte(nil), h.bytes...)
		for k := 0; k < 1+r.N(4); k++ {
			b[r.N(len(b))] ^= byte(1 + r.N(255))
		}
		return b, h.ctxID, what
	case "digit":
		return flipDigit(h.bytes, op.n(3), op.n(4)), h.ctxID, what
	case "forge":
		return forgeBP(w, op)
	case "control":
		sh := w.c.shapeOf(h.obj.(*bulletproofs.BulletProof))
		q := lie("plain", op.n(3), bigOf(op.s(0)), sh, r, h.obj.(*bulletproofs.BulletProof))
		if q == nil {
			return nil, 0, ""
		}
		return jsonOf(q), h.ctxID, what
	case "malform":
		return malformJSON(h.bytes, donorOf(w, op), op), h.ctxID, what
	default:
		return nil, 0, ""
	}
	return jsonOf(p), h.ctxID, what
}

// coreSlot picks a slot, the small number of core elements as likely as the many generators.
func coreSlot(ss []Slot, r *Rand) int {
	if r.P(3, 4) {
		var core []int
		for i, s := range ss {
			if !strings.Contains(s.Path, "Params") {
				core = append(core, i)
			}
		}
		if len(core) > 0 {
			return core[r.N(len(core))]
		}
	}
	return r.N(len(ss))
}

// pick returns an honest message by index.
func (w *World) pick(i int64) *Honest {
	if len(w.honest) == 0 {
		return nil
	}
	return w.honest[int(uint64(i)%uint64(len(w.honest)))]
}
