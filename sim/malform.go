package main

import (
	"bytes"
	"encoding/json"
	"fmt"
	"math/big"
	"strings"
)

// malformJSON damages the structure of a JSON document: values of wrong types and sizes, missing,
// null and repeated elements. op.N: verifier, message, other, number of damages, seed.
func malformJSON(b, donor []byte, op Op) []byte {
	d := json.NewDecoder(bytes.NewReader(b))
	d.UseNumber()
	var v any
	if d.Decode(&v) != nil {
		return nil
	}
	r := NewRand(uint64(op.n(4)))
	k := 1 + int(op.n(3))
	if r.P(1, 4) {
		resize(v, r)
		k = r.N(2)
	}
	if donor != nil && r.P(1, 4) {
		e := json.NewDecoder(bytes.NewReader(donor))
		e.UseNumber()
		var o any
		if e.Decode(&o) == nil {
			graft(v, o, r)
			k = r.N(2)
		}
	}
	for i := 0; i < k; i++ {
		v = damage(v, r)
	}
	var out bytes.Buffer
	writeJSON(&out, v, 2)
	nb := out.Bytes()
	if r.P(1, 12) {
		nb = nb[:r.N(len(nb)+1)]
	}
	if r.P(1, 12) {
		nb = append(nb, nb...)
	}
	if r.P(1, 15) {
		nb = []byte(r.PickS("null", "{}", "[]", "0", `""`, "true", `{"V":null}`, `{"Params":{"N":0}}`, `{"P1":{},"P2":{}}`, strings.Repeat("[", 20000)))
	}
	return nb
}

func copyJSON(v any) any {
	switch x := v.(type) {
	case map[string]any:
		m := map[string]any{}
		for k, e := range x {
			m[k] = copyJSON(e)
		}
		return m
	case []any:
		l := make([]any, len(x))
		for i := range x {
			l[i] = copyJSON(x[i])
		}
		return l
	}
	return v
}

type ref struct {
	get  func() any
	set  func(any)
	del  func()
	path string
}

func refs(v any, path string, out *[]ref) {
	switch x := v.(type) {
	case map[string]any:
		var keys []string
		for k := range x {
			keys = append(keys, k)
		}
		sortStrings(keys)
		for _, k := range keys {
			k := k
			*out = append(*out, ref{func() any { return x[k] }, func(n any) { x[k] = n }, func() { delete(x, k) }, path + "." + k})
			refs(x[k], path+"."+k, out)
		}
	case []any:
		for i := range x {
			i := i
			*out = append(*out, ref{func() any { return x[i] }, func(n any) { x[i] = n }, nil, fmt.Sprintf("%s[%d]", path, i)})
			refs(x[i], fmt.Sprintf("%s[%d]", path, i), out)
		}
	}
}

// resize gives a part of the document another size, in a coherent way: every number that is the size
// of a list there and every list whose length is the size or its logarithm change together.
func resize(v any, r *Rand) {
	var all []ref
	refs(v, "", &all)
	var roots []any
	roots = append(roots, v)
	for _, u := range all {
		if m, ok := u.get().(map[string]any); ok && len(m) != 2 {
			roots = append(roots, m)
		}
	}
	root := roots[r.N(len(roots))]
	var part []ref
	refs(root, "", &part)
	n := -1
	for _, u := range part {
		if l, ok := u.get().([]any); ok && len(l) > n {
			n = len(l)
		}
	}
	if n < 0 {
		return
	}
	logn := 0
	for 1<<uint(logn+1) <= n {
		logn++
	}
	lm := r.N(7)
	if r.P(1, 2) {
		lm = logn + 1 - 2*r.N(2)
		if lm < 0 {
			lm = 1
		}
	}
	m := 1 << uint(lm)
	if r.P(1, 8) {
		m += r.N(3) - 1
	}
	fit := func(l []any, k int) []any {
		out := make([]any, 0, k)
		for i := 0; i < k; i++ {
			switch {
			case i < len(l):
				out = append(out, l[i])
			case len(l) > 0:
				out = append(out, copyJSON(l[i%len(l)]))
			default:
				out = append(out, map[string]any{"X": json.Number("55066263022277343669578718895168534326250603453777594175500187360389116729240"), "Y": json.Number("32670510020758816978083085130507043184471273380659243275938904335757337482424")})
			}
		}
		return out
	}
	for _, u := range part {
		if r.P(1, 20) {
			continue
		}
		switch x := u.get().(type) {
		case []any:
			if len(x) == n && n > 1 || n == 1 && len(x) == 1 {
				u.set(fit(x, m))
			} else if len(x) == logn {
				u.set(fit(x, lm))
			}
		case json.Number:
			if x.String() == fmt.Sprint(n) {
				u.set(json.Number(fmt.Sprint(m)))
			}
		}
	}
}

// graft puts a part of another message in the place of the same part here.
func graft(v, o any, r *Rand) {
	var here, there []ref
	refs(v, "", &here)
	refs(o, "", &there)
	by := map[string][]ref{}
	name := func(p string) string { return p[strings.LastIndexAny(p, ".")+1:] }
	for _, u := range there {
		by[name(u.path)] = append(by[name(u.path)], u)
	}
	for k := 0; k < 60; k++ {
		u := here[r.N(len(here))]
		switch u.get().(type) {
		case map[string]any, []any:
		default:
			continue
		}
		if strings.HasSuffix(u.path, "]") && k < 40 {
			continue
		}
		if c := by[name(u.path)]; len(c) > 0 {
			u.set(copyJSON(c[r.N(len(c))].get()))
			return
		}
	}
}

func damage(v any, r *Rand) any {
	var all []ref
	refs(v, "", &all)
	if len(all) == 0 {
		return v
	}
	pick := func() ref { return all[r.N(len(all))] }
	t := pick()
	if r.P(2, 3) { // prefer elements near the top and lists
		for k := 0; k < 20; k++ {
			t = pick()
			if strings.Count(t.path, ".") <= 2 && !strings.HasSuffix(t.path, "]") {
				break
			}
		}
	}
	cur := t.get()
	huge := json.Number("1" + strings.Repeat("0", 400))
	switch r.N(12) {
	case 0:
		t.set(nil)
	case 1:
		if t.del != nil {
			t.del()
		} else {
			t.set(nil)
		}
	case 2, 3: // numbers
		t.set(r.number(huge))
	case 4:
		t.set([]any{nil, map[string]any{}, "x", true, []any{}, json.Number("1.5"), []any{nil}, map[string]any{"X": nil, "Y": nil}}[r.N(8)])
	case 5: // another element's value
		t.set(copyJSON(pick().get()))
	case 6, 7: // lists
		if l, ok := cur.([]any); ok {
			t.set(r.list(l))
			break
		}
		for k := 0; k < 40; k++ {
			t = pick()
			if l, ok := t.get().([]any); ok {
				t.set(r.list(l))
				break
			}
		}
	case 8: // a whole kind of element everywhere
		name := t.path[strings.LastIndexAny(t.path, ".]")+1:]
		nv := r.number(huge)
		isNull := r.P(1, 2)
		for _, u := range all {
			if strings.HasSuffix(u.path, "."+name) {
				if isNull {
					u.set(nil)
				} else if _, ok := u.get().(json.Number); ok {
					u.set(nv)
				}
			}
		}
	case 9, 10: // a point
		for k := 0; k < 60; k++ {
			t = pick()
			if m, ok := t.get().(map[string]any); ok {
				if _, ok := m["X"]; ok && len(m) == 2 {
					m2 := map[string]any{"X": m["X"], "Y": m["Y"]}
					key := r.PickS("X", "Y")
					switch r.N(7) {
					case 0:
						m2[key] = nil
					case 1:
						delete(m2, key)
					case 2:
						m2[key] = r.number(huge)
					case 3:
						m2["X"], m2["Y"] = m["Y"], m["X"]
					case 4:
						m2["X"], m2["Y"] = json.Number("0"), json.Number("0")
					case 5:
						if n, ok := m[key].(json.Number); ok {
							m2[key] = json.Number(new(big.Int).Add(bigOf(n.String()), secpP).String())
						}
					case 6:
						if n, ok := m[key].(json.Number); ok {
							m2[key] = json.Number(new(big.Int).Neg(bigOf(n.String())).String())
						}
					}
					t.set(m2)
					break
				}
			}
		}
	case 11: // lengths and sizes: the integers called N, A, B
		for k := 0; k < 200; k++ {
			t = pick()
			if strings.HasSuffix(t.path, ".N") {
				t.set(json.Number(r.PickS("0", "1", "-1", "2", "3", "4", "5", "7", "8", "16", "31", "32", "33", "62", "63", "64", "65", "-8", "128", "1000000",
					"4294967296", "9223372036854775807", "-9223372036854775808", "1152921504606846976")))
				break
			}
		}
	}
	return v
}

func (r *Rand) number(huge json.Number) any {
	switch r.N(9) {
	case 0:
		return json.Number("0")
	case 1:
		return json.Number("-1")
	case 2:
		return json.Number("1")
	case 3:
		return json.Number(secpN.String())
	case 4:
		return json.Number(secpP.String())
	case 5:
		return huge
	case 6:
		return json.Number("-" + secpN.String())
	case 7:
		return json.Number(r.Big(secpP).String())
	}
	return json.Number(fmt.Sprint(int64(r.U64())))
}

func (r *Rand) list(l []any) []any {
	switch r.N(7) {
	case 0:
		return []any{}
	case 1:
		if len(l) > 0 {
			return l[:len(l)-1]
		}
	case 2:
		if len(l) > 0 {
			return append(append([]any{}, l...), l[0])
		}
		return []any{nil}
	case 3:
		return append(append([]any{}, l...), nil)
	case 4:
		return append(append([]any{}, l...), l...)
	case 5:
		n := append([]any{}, l...)
		if len(n) > 0 {
			n[r.N(len(n))] = nil
		}
		return n
	case 6:
		n := append([]any{}, l...)
		for len(n) < 70 && len(l) > 0 {
			n = append(n, l[r.N(len(l))])
		}
		return n
	}
	return nil
}

// donorOf is the second message of a malformation, if there is one.
func donorOf(w *World, op Op) []byte {
	if op.n(2) == 0 {
		return nil
	}
	if o := w.pick(op.n(2)); o != nil {
		return o.bytes
	}
	return nil
}
