package main

import (
	"bytes"
	"encoding/json"
	"fmt"
	"math/big"
	"os"
	"os/exec"
	"reflect"
	"syscall"
	"unsafe"

	"github.com/ing-bank/zkrp/bulletproofs"
	"github.com/ing-bank/zkrp/ccs08"
	"verifsim/rt"
)

// Cold executions: what the threads share comes from another process, as parameters and proofs
// loaded from storage do, so that the concurrent operations are the first ones of their process and
// meet everything that the repository sets up lazily.

// frozenType lists what may be behind an interface in a shared environment.
var frozenTypes = func() map[string]reflect.Type {
	m := map[string]reflect.Type{}
	add := func(t reflect.Type) {
		if t.Kind() == reflect.Struct {
			t = reflect.PtrTo(t)
		}
		m[t.String()] = t
	}
	for _, x := range []any{&bulletproofs.BulletProof{}, &bulletproofs.ProofBPRP{}, &bulletproofs.InnerProductProof{}, &ccs08.VerifCCS08{}, new(big.Int)} {
		add(reflect.TypeOf(x))
	}
	for _, f := range []any{bulletproofs.SetupGeneric, ccs08.SetupSet, ccs08.SetupUL, ccs08.ProveSet, ccs08.ProveUL} {
		add(reflect.TypeOf(f).Out(0))
	}
	return m
}()

// frozen is a value in transport form; pointers are numbered so that shared objects stay shared.
type frozen struct {
	ID   int       `json:"i,omitempty"` // pointer: number of the object
	Elem *frozen   `json:"e,omitempty"` // pointer: its first appearance; interface: the value
	Type string    `json:"t,omitempty"`
	Nil  bool      `json:"0,omitempty"`
	S    *string   `json:"s,omitempty"`
	List []*frozen `json:"l,omitempty"`
	Keys []*frozen `json:"k,omitempty"`
}

type ptrKey struct {
	p unsafe.Pointer
	t reflect.Type
}

func freeze(v reflect.Value, seen map[ptrKey]int) *frozen {
	v = open(addressable(v))
	text := func(s string) *frozen { return &frozen{S: &s} }
	if v.Type() == tBig.Elem() {
		return text(v.Addr().Interface().(*big.Int).String())
	}
	switch v.Kind() {
	case reflect.Ptr:
		if v.IsNil() {
			return &frozen{Nil: true}
		}
		k := ptrKey{unsafe.Pointer(v.Pointer()), v.Type()}
		if id := seen[k]; id != 0 {
			return &frozen{ID: id}
		}
		id := len(seen) + 1
		seen[k] = id
		return &frozen{ID: id, Elem: freeze(v.Elem(), seen)}
	case reflect.Struct:
		n := &frozen{}
		for i := 0; i < v.NumField(); i++ {
			n.List = append(n.List, freeze(v.Field(i), seen))
		}
		return n
	case reflect.Slice, reflect.Array:
		n := &frozen{}
		if v.Kind() == reflect.Slice && v.IsNil() {
			return &frozen{Nil: true}
		}
		for i := 0; i < v.Len(); i++ {
			n.List = append(n.List, freeze(v.Index(i), seen))
		}
		return n
	case reflect.Map:
		if v.IsNil() {
			return &frozen{Nil: true}
		}
		n := &frozen{}
		it := v.MapRange()
		for it.Next() {
			n.Keys = append(n.Keys, freeze(it.Key(), seen))
			n.List = append(n.List, freeze(it.Value(), seen))
		}
		return n
	case reflect.Interface:
		if v.IsNil() {
			return &frozen{Nil: true}
		}
		t := v.Elem().Type()
		if frozenTypes[t.String()] != t {
			panic(unfrozen{"type " + t.String()})
		}
		return &frozen{Type: t.String(), Elem: freeze(v.Elem(), seen)}
	case reflect.String, reflect.Bool, reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64,
		reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64:
		return text(fmt.Sprint(v.Interface()))
	}
	if v.IsZero() {
		return &frozen{Nil: true}
	}
	panic(unfrozen{"kind " + v.Kind().String()})
}

type unfrozen struct{ what string }

func thaw(v reflect.Value, n *frozen, objs map[int]reflect.Value) {
	v = open(v)
	if n == nil || n.Nil {
		return
	}
	if v.Type() == tBig.Elem() {
		if z := v.Addr().Interface().(*big.Int); *n.S != "0" {
			z.SetString(*n.S, 10)
		}
		return
	}
	switch v.Kind() {
	case reflect.Ptr:
		if o, ok := objs[n.ID]; ok {
			v.Set(o)
			return
		}
		o := reflect.New(v.Type().Elem())
		objs[n.ID] = o
		thaw(o.Elem(), n.Elem, objs)
		v.Set(o)
	case reflect.Struct:
		for i := 0; i < v.NumField(); i++ {
			thaw(v.Field(i), n.List[i], objs)
		}
	case reflect.Slice:
		s := reflect.MakeSlice(v.Type(), len(n.List), len(n.List))
		for i := range n.List {
			thaw(s.Index(i), n.List[i], objs)
		}
		v.Set(s)
	case reflect.Array:
		for i := range n.List {
			thaw(v.Index(i), n.List[i], objs)
		}
	case reflect.Map:
		m := reflect.MakeMap(v.Type())
		for i := range n.List {
			k, e := reflect.New(v.Type().Key()).Elem(), reflect.New(v.Type().Elem()).Elem()
			thaw(k, n.Keys[i], objs)
			thaw(e, n.List[i], objs)
			m.SetMapIndex(k, e)
		}
		v.Set(m)
	case reflect.Interface:
		e := reflect.New(frozenTypes[n.Type]).Elem()
		thaw(e, n.Elem, objs)
		v.Set(e)
	case reflect.String:
		v.SetString(*n.S)
	case reflect.Bool:
		v.SetBool(*n.S == "true")
	default:
		if v.CanInt() {
			var x int64
			fmt.Sscan(*n.S, &x)
			v.SetInt(x)
		} else {
			var x uint64
			fmt.Sscan(*n.S, &x)
			v.SetUint(x)
		}
	}
}

// envBuilders build the shared environment of a kind of plan.
var envBuilders = map[string]func(c *Ctx) any{}

type frozenEnv struct {
	Viol *Violation `json:"viol,omitempty"`
	Env  *frozen    `json:"env,omitempty"`
	No   string     `json:"no,omitempty"` // why it can not be transported
}

// envMain builds the environment of the plan on stdin and prints it.
func envMain(builder string) {
	limits()
	watchdog(150e9)
	var p Plan
	if err := json.NewDecoder(os.Stdin).Decode(&p); err != nil {
		panic(err)
	}
	out := frozenEnv{}
	c := &Ctx{plan: &p, st: &Stats{C: map[string]int64{}}}
	outside = NewStream(p.Seed, "outside")
	func() {
		defer func() {
			switch v := recover().(type) {
			case nil:
			case stop:
			case unfrozen:
				out.No = v.what
			default:
				panic(v)
			}
		}()
		out.Env = freeze(reflect.ValueOf(envBuilders[builder](c)), map[ptrKey]int{})
	}()
	out.Viol = c.viol
	b, _ := json.Marshal(out)
	os.Stdout.Write(b)
	os.Stdout.WriteString("\n")
}

// environment builds what the threads share, in another process if the plan says so.
func environment[T any](c *Ctx, builder string) *T {
	if !c.plan.Cold {
		return envBuilders[builder](c).(*T)
	}
	if rt.Active() {
		panic("environment inside of a run")
	}
	b, _ := json.Marshal(c.plan)
	self, _ := os.Executable()
	cmd := exec.Command(self, "env", builder)
	cmd.Stdin = bytes.NewReader(b)
	cmd.SysProcAttr = &syscall.SysProcAttr{Pdeathsig: syscall.SIGKILL}
	var stderr tail
	cmd.Stderr = &stderr
	o, err := cmd.Output()
	var f frozenEnv
	if err == nil {
		err = json.Unmarshal(o, &f)
	}
	if err != nil { // the process that builds it died: let this one show how
		os.Stderr.WriteString(stderr.String())
		return envBuilders[builder](c).(*T)
	}
	if f.Viol != nil {
		c.fail(f.Viol.Class, "%s", f.Viol.Msg)
	}
	if f.No != "" { // not transportable
		c.count("environment-built-in-place")
		return envBuilders[builder](c).(*T)
	}
	c.count("environment-from-another-process")
	var e *T
	thaw(reflect.ValueOf(&e).Elem(), f.Env, map[int]reflect.Value{})
	return e
}

func init() {
	envBuilders["bp"] = func(c *Ctx) any { return buildBPEnv(c) }
	envBuilders["ccs"] = func(c *Ctx) any { return buildCCSEnv(c) }
}
