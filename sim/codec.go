package main

import (
	"bytes"
	"encoding/binary"
	"errors"
	"fmt"
	"math/big"
	"reflect"
	"strings"

	"github.com/ing-bank/zkrp/crypto/bn256"
)

// A wire format for structures of the repository that have none: fields in order, group elements
// in the repository's own encoding.

var errWire = errors.New("malformed message")

type wreader struct{ b []byte }

func (r *wreader) take(n int) []byte {
	if n < 0 || n > len(r.b) {
		panic(errWire)
	}
	x := r.b[:n]
	r.b = r.b[n:]
	return x
}

func (r *wreader) u32() int { return int(binary.BigEndian.Uint32(r.take(4))) }

func put32(w *bytes.Buffer, n int) {
	var b [4]byte
	binary.BigEndian.PutUint32(b[:], uint32(n))
	w.Write(b[:])
}

func putBytes(w *bytes.Buffer, b []byte) { put32(w, len(b)); w.Write(b) }

// wireEncode encodes what ptr points to.
func wireEncode(ptr any) []byte { return wireEncodeNull(ptr, "\x00") }

// wireNull stands for an element that a dishonest prover left out. (A verifier whose transport
// insists on all elements never sees such messages, one that is given structures does.)
const wireNull = "\x7fnothing"

func wireEncodeNull(ptr any, null string) []byte {
	var w bytes.Buffer
	wireEnc(&w, reflect.ValueOf(ptr).Elem(), null)
	return w.Bytes()
}

// wireOptional are the elements that honest provers leave out, wireLearn notes them.
var wireOptional = map[string]bool{}

func wireLearn(v reflect.Value, path string) {
	v = open(addressable(v))
	switch v.Kind() {
	case reflect.Ptr:
		if v.IsNil() {
			wireOptional[path] = true
		} else if t := v.Type(); t != tBig && t != tG1 && t != tG2 && t != tGT {
			wireLearn(v.Elem(), path)
		}
	case reflect.Struct:
		for i := 0; i < v.NumField(); i++ {
			wireLearn(v.Field(i), v.Type().String()+"."+v.Type().Field(i).Name)
		}
	case reflect.Slice:
		for i := 0; i < v.Len(); i++ {
			wireLearn(v.Index(i), path)
		}
	}
}

// wireCarries: what has no meaning outside of its process is not transported.
func wireCarries(t reflect.Type) bool {
	switch t.Kind() {
	case reflect.Ptr:
		if t == tBig || t == tG1 || t == tG2 || t == tGT {
			return true
		}
		return t.Elem().Kind() == reflect.Struct && wireCarries(t.Elem())
	case reflect.Struct:
		return t.PkgPath() != "sync" && t.PkgPath() != "sync/atomic"
	case reflect.Slice:
		return wireCarries(t.Elem())
	case reflect.Int, reflect.Int32, reflect.Int64, reflect.Bool, reflect.String:
		return true
	}
	return false
}

func wireEnc(w *bytes.Buffer, v reflect.Value, null string) {
	v = open(v)
	if !wireCarries(v.Type()) {
		return
	}
	switch v.Kind() {
	case reflect.Ptr:
		if v.IsNil() {
			w.WriteString(null)
			return
		}
		w.WriteByte(1)
		switch v.Type() {
		case tBig:
			x := v.Interface().(*big.Int)
			if x.Sign() < 0 {
				w.WriteByte('-')
			} else {
				w.WriteByte('+')
			}
			putBytes(w, x.Bytes())
		case tG1:
			putBytes(w, v.Interface().(*bn256.G1).Marshal())
		case tG2:
			putBytes(w, v.Interface().(*bn256.G2).Marshal())
		case tGT:
			putBytes(w, v.Interface().(*bn256.GT).Marshal())
		default:
			wireEnc(w, v.Elem(), null)
		}
	case reflect.Struct:
		for i := 0; i < v.NumField(); i++ {
			wireEnc(w, v.Field(i), null)
		}
	case reflect.Slice:
		put32(w, v.Len())
		for i := 0; i < v.Len(); i++ {
			wireEnc(w, v.Index(i), null)
		}
	case reflect.Int, reflect.Int32, reflect.Int64:
		var b [8]byte
		binary.BigEndian.PutUint64(b[:], uint64(v.Int()))
		w.Write(b[:])
	case reflect.Bool:
		if v.Bool() {
			w.WriteByte(1)
		} else {
			w.WriteByte(0)
		}
	case reflect.String:
		putBytes(w, []byte(v.String()))
	default:
		panic("codec: " + v.Type().String())
	}
}

// wireDecode decodes a message into a new structure of the type.
func wireDecode(t reflect.Type, b []byte) (out any, err error) {
	v := reflect.New(t)
	defer func() {
		if e := recover(); e != nil {
			if e == any(errWire) {
				out, err = nil, errWire
				return
			}
			panic(e)
		}
	}()
	r := &wreader{b}
	wireDec(r, v.Elem(), "")
	if len(r.b) != 0 {
		return nil, errWire
	}
	return v.Interface(), nil
}

func wireDec(r *wreader, v reflect.Value, path string) {
	v = open(v)
	if !wireCarries(v.Type()) {
		return
	}
	switch v.Kind() {
	case reflect.Ptr:
		switch r.take(1)[0] {
		case 0:
			if wireOptional[path] {
				return
			}
			panic(errWire) // every element has to be there
		case wireNull[0]:
			if string(r.take(len(wireNull)-1)) != wireNull[1:] {
				panic(errWire)
			}
			return
		case 1:
		default:
			panic(errWire)
		}
		switch v.Type() {
		case tBig:
			s := r.take(1)[0]
			n := r.u32()
			if n > 1024 {
				panic(errWire)
			}
			x := new(big.Int).SetBytes(r.take(n))
			if s == '-' {
				x.Neg(x)
			} else if s != '+' {
				panic(errWire)
			}
			v.Set(reflect.ValueOf(x))
		case tG1:
			e, ok := new(bn256.G1).Unmarshal(r.take(r.u32()))
			if !ok {
				panic(errWire)
			}
			v.Set(reflect.ValueOf(e))
		case tG2:
			e, ok := new(bn256.G2).Unmarshal(r.take(r.u32()))
			if !ok {
				panic(errWire)
			}
			v.Set(reflect.ValueOf(e))
		case tGT:
			e, ok := new(bn256.GT).Unmarshal(r.take(r.u32()))
			if !ok {
				panic(errWire)
			}
			v.Set(reflect.ValueOf(e))
		default:
			n := reflect.New(v.Type().Elem())
			wireDec(r, n.Elem(), path)
			v.Set(n)
		}
	case reflect.Struct:
		for i := 0; i < v.NumField(); i++ {
			wireDec(r, v.Field(i), v.Type().String()+"."+v.Type().Field(i).Name)
		}
	case reflect.Slice:
		n := r.u32()
		if n > 256 {
			panic(errWire)
		}
		s := reflect.MakeSlice(v.Type(), n, n)
		for i := 0; i < n; i++ {
			wireDec(r, s.Index(i), path)
		}
		v.Set(s)
	case reflect.Int, reflect.Int32, reflect.Int64:
		v.SetInt(int64(binary.BigEndian.Uint64(r.take(8))))
	case reflect.Bool:
		v.SetBool(r.take(1)[0] == 1)
	case reflect.String:
		v.SetString(string(r.take(r.u32())))
	default:
		panic("codec: " + v.Type().String())
	}
}

// wireCore is the value of a structure with scalars reduced modulo the order.
func wireCore(ptr any, order *big.Int) string {
	var b strings.Builder
	for _, s := range slots(ptr) {
		b.WriteString(s.Path + "=")
		switch s.Kind {
		case "scalar":
			x, _ := s.V.Interface().(*big.Int)
			b.WriteString(scalarString(x, order))
		case "int":
			fmt.Fprint(&b, s.V.Int())
		case "slice":
			fmt.Fprint(&b, s.V.Len())
		default:
			if s.V.IsNil() {
				b.WriteString("nil")
				break
			}
			t, _ := encodeElement(s.V)
			b.WriteString(t)
		}
		b.WriteString(";")
	}
	return b.String()
}

// field returns a field of the structure that ptr points to, by name.
func field(ptr any, name string) (reflect.Value, bool) {
	v := reflect.ValueOf(ptr)
	for v.Kind() == reflect.Ptr {
		if v.IsNil() {
			return reflect.Value{}, false
		}
		v = v.Elem()
	}
	if v.Kind() != reflect.Struct {
		return reflect.Value{}, false
	}
	f := v.FieldByName(name)
	if !f.IsValid() || !f.CanAddr() {
		return reflect.Value{}, false
	}
	return open(f), true
}

func fieldAs[T any](ptr any, name string) (T, bool) {
	var zero T
	f, ok := field(ptr, name)
	if !ok {
		return zero, false
	}
	x, ok := f.Interface().(T)
	return x, ok
}
