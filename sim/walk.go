package main

import (
	"fmt"
	"math/big"
	"reflect"
	"strings"
	"unsafe"

	"github.com/ing-bank/zkrp/crypto/bn256"
	"github.com/ing-bank/zkrp/crypto/p256"
)

// Reflection over the repository's structures, unexported fields included: copies, fingerprints,
// wire encoding and the slots that tampering changes.

var (
	tBig  = reflect.TypeOf((*big.Int)(nil))
	tP256 = reflect.TypeOf((*p256.P256)(nil))
	tG1   = reflect.TypeOf((*bn256.G1)(nil))
	tG2   = reflect.TypeOf((*bn256.G2)(nil))
	tGT   = reflect.TypeOf((*bn256.GT)(nil))
)

// open makes an unexported field readable and writable.
func open(v reflect.Value) reflect.Value {
	if v.CanAddr() && (!v.CanSet() || !v.CanInterface()) {
		return reflect.NewAt(v.Type(), unsafe.Pointer(v.UnsafeAddr())).Elem()
	}
	return v
}

// addressable returns v or an addressable copy of it.
func addressable(v reflect.Value) reflect.Value {
	if v.CanAddr() {
		return v
	}
	n := reflect.New(v.Type()).Elem()
	n.Set(v)
	return n
}

// deepCopy copies x with everything it points to.
func deepCopy[T any](x T) T {
	v := addressable(reflect.ValueOf(&x).Elem())
	out := reflect.New(v.Type()).Elem()
	copyInto(out, v, map[unsafe.Pointer]reflect.Value{})
	return out.Interface().(T)
}

func copyInto(dst, src reflect.Value, seen map[unsafe.Pointer]reflect.Value) {
	dst, src = open(dst), open(src)
	switch src.Kind() {
	case reflect.Ptr:
		if src.IsNil() {
			return
		}
		p := unsafe.Pointer(src.Pointer())
		if c, ok := seen[p]; ok && c.Type() == src.Type() {
			dst.Set(c)
			return
		}
		n := reflect.New(src.Type().Elem())
		seen[p] = n
		copyInto(n.Elem(), src.Elem(), seen)
		dst.Set(n)
	case reflect.Struct:
		for i := 0; i < src.NumField(); i++ {
			copyInto(dst.Field(i), src.Field(i), seen)
		}
	case reflect.Slice:
		if src.IsNil() {
			return
		}
		n := reflect.MakeSlice(src.Type(), src.Len(), src.Len())
		for i := 0; i < src.Len(); i++ {
			copyInto(n.Index(i), src.Index(i), seen)
		}
		dst.Set(n)
	case reflect.Array:
		for i := 0; i < src.Len(); i++ {
			copyInto(dst.Index(i), src.Index(i), seen)
		}
	case reflect.Map:
		if src.IsNil() {
			return
		}
		n := reflect.MakeMap(src.Type())
		it := src.MapRange()
		for it.Next() {
			val := reflect.New(src.Type().Elem()).Elem()
			sv := addressable(it.Value())
			copyInto(val, sv, seen)
			n.SetMapIndex(it.Key(), val)
		}
		dst.Set(n)
	case reflect.Interface:
		if src.IsNil() {
			return
		}
		sv := addressable(src.Elem())
		n := reflect.New(src.Elem().Type()).Elem()
		copyInto(n, sv, seen)
		dst.Set(n)
	default:
		dst.Set(src)
	}
}

// fingerprint describes the value of x: group elements by their encodings, everything else field
// by field. Representations with the same value give the same text. x is not changed.
func fingerprint(x any) string {
	if x == nil {
		return "nil"
	}
	v := reflect.ValueOf(x)
	cp := reflect.New(v.Type()).Elem()
	copyInto(cp, addressable(v), map[unsafe.Pointer]reflect.Value{})
	var b strings.Builder
	dump(&b, cp, 0)
	return b.String()
}

func encodeElement(v reflect.Value) (s string, ok bool) {
	defer func() {
		if e := recover(); e != nil {
			s, ok = fmt.Sprintf("unencodable(%v)", e), true
		}
	}()
	switch v.Type() {
	case tBig:
		return v.Interface().(*big.Int).String(), true
	case tP256:
		return pointString(v.Interface().(*p256.P256)), true
	case tG1:
		return fmt.Sprintf("G1:%x", v.Interface().(*bn256.G1).Marshal()), true
	case tG2:
		return fmt.Sprintf("G2:%x", v.Interface().(*bn256.G2).Marshal()), true
	case tGT:
		return fmt.Sprintf("GT:%x", v.Interface().(*bn256.GT).Marshal()), true
	}
	return "", false
}

func dump(b *strings.Builder, v reflect.Value, depth int) {
	v = open(v)
	if depth > 30 {
		b.WriteString("deep")
		return
	}
	switch v.Kind() {
	case reflect.Ptr:
		if v.IsNil() {
			b.WriteString("nil")
			return
		}
		if s, ok := encodeElement(v); ok {
			b.WriteString(s)
			return
		}
		b.WriteString("&")
		dump(b, v.Elem(), depth+1)
	case reflect.Struct:
		if pv := v; pv.CanAddr() {
			if s, ok := encodeElement(pv.Addr()); ok {
				b.WriteString(s)
				return
			}
		}
		b.WriteString("{")
		for i := 0; i < v.NumField(); i++ {
			b.WriteString(v.Type().Field(i).Name + ":")
			dump(b, v.Field(i), depth+1)
			b.WriteString(" ")
		}
		b.WriteString("}")
	case reflect.Slice, reflect.Array:
		b.WriteString("[")
		for i := 0; i < v.Len(); i++ {
			dump(b, v.Index(i), depth+1)
			b.WriteString(" ")
		}
		b.WriteString("]")
	case reflect.Map:
		var keys []string
		vals := map[string]reflect.Value{}
		it := v.MapRange()
		for it.Next() {
			k := fmt.Sprint(it.Key().Interface())
			keys = append(keys, k)
			vals[k] = it.Value()
		}
		sortStrings(keys)
		b.WriteString("map[")
		for _, k := range keys {
			b.WriteString(k + ":")
			dump(b, addressable(vals[k]), depth+1)
			b.WriteString(" ")
		}
		b.WriteString("]")
	case reflect.Interface:
		if v.IsNil() {
			b.WriteString("nil")
			return
		}
		dump(b, addressable(v.Elem()), depth+1)
	case reflect.Func, reflect.Chan, reflect.UnsafePointer:
		b.WriteString(v.Type().String())
	default:
		fmt.Fprint(b, v.Interface())
	}
}

func sortStrings(s []string) {
	for i := 1; i < len(s); i++ {
		for j := i; j > 0 && s[j] < s[j-1]; j-- {
			s[j], s[j-1] = s[j-1], s[j]
		}
	}
}

func pointString(p *p256.P256) string {
	if p == nil {
		return "nil"
	}
	if p.X == nil || p.Y == nil || p.X.Sign() == 0 && p.Y.Sign() == 0 {
		return "inf"
	}
	return "(" + p.X.String() + "," + p.Y.String() + ")"
}

// Slot is a place in a message that tampering can change.
type Slot struct {
	Path string
	V    reflect.Value // settable
	Kind string        // point, scalar, int, slice, g1, g2, gt
}

// slots lists the places of the structure that ptr points to.
func slots(ptr any) []Slot {
	var out []Slot
	walkSlots(reflect.ValueOf(ptr).Elem(), "", &out)
	return out
}

func walkSlots(v reflect.Value, path string, out *[]Slot) {
	v = open(v)
	switch v.Type() {
	case tP256:
		*out = append(*out, Slot{path, v, "point"})
		return
	case tBig:
		*out = append(*out, Slot{path, v, "scalar"})
		return
	case tG1:
		*out = append(*out, Slot{path, v, "g1"})
		return
	case tG2:
		*out = append(*out, Slot{path, v, "g2"})
		return
	case tGT:
		*out = append(*out, Slot{path, v, "gt"})
		return
	}
	switch v.Kind() {
	case reflect.Ptr:
		if !v.IsNil() {
			walkSlots(v.Elem(), path, out)
		}
	case reflect.Struct:
		for i := 0; i < v.NumField(); i++ {
			p := v.Type().Field(i).Name
			if path != "" {
				p = path + "." + p
			}
			walkSlots(v.Field(i), p, out)
		}
	case reflect.Slice:
		*out = append(*out, Slot{path, v, "slice"})
		for i := 0; i < v.Len(); i++ {
			walkSlots(v.Index(i), fmt.Sprintf("%s[%d]", path, i), out)
		}
	case reflect.Int64, reflect.Int, reflect.Int32:
		*out = append(*out, Slot{path, v, "int"})
	}
}

func findSlot(ss []Slot, path string) (Slot, bool) {
	for _, s := range ss {
		if s.Path == path {
			return s, true
		}
	}
	return Slot{}, false
}

type unsafePtr = unsafe.Pointer
