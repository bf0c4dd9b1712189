package main

import (
	"fmt"
	"go/types"
	"math"
	"strings"
	"sync"

	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/types/typeutil"
)

// Value is the interpreter's universal value; its meaning depends on the
// static type.  The zero Value is the zero of every scalar and reference
// type.  Integers: n is sign-extended for signed types, zero-extended for
// unsigned ones; p is a *Term when symbolic.  Floats: n holds the float64
// bits (float32 values rounded); p is a *TF when symbolic.
type Value struct {
	n uint64
	p any
}

type Struct struct{ f []Value } // structs and arrays
type Slice struct{ a []Value }
type SymStr struct{ b []Value }
type Closure struct {
	fn  *ssa.Function
	env []Value
}
type Builtin struct{ name string }
type Iface struct {
	t *TypeInfo
	v Value
}
type SymPtr struct { // pointer to a[idx] with symbolic idx (in bounds)
	a    []Value
	idx  *Term
	path []int // fields of the element
}

func (p *SymPtr) cell(i uint64) *Value {
	c := &p.a[i]
	for _, f := range p.path {
		c = &c.p.(*Struct).f[f]
	}
	return c
}

type SliceData struct{ a []Value }
type StrData struct{ s Value }

type Map struct {
	ti      *TypeInfo
	keyStr  bool
	idx     map[string]int // concrete key -> entry index
	ents    []mapEnt
	live    int
	nsym    int // live entries with symbolic keys
	id      int
	intKeys bool
}
type mapEnt struct {
	k, v Value
	ck   string // canonical concrete key, "" with sym=true
	sym  bool
	dead bool
}

type kindT uint8

const (
	kNone kindT = iota
	kBool
	kInt
	kFloat
	kString
	kAgg
	kPtr
	kSlice
	kMap
	kIface
	kFunc
	kOther
)

type kinfo struct {
	k      kindT
	w      uint8
	signed bool
}

// TypeInfo is the canonical representative of a type.
type TypeInfo struct {
	t    types.Type
	id   int
	ki   kinfo
	elem *TypeInfo
}

var (
	canonMu  sync.Mutex
	canonMap typeutil.Map
	canonN   int
)

func canonType(t types.Type) *TypeInfo {
	canonMu.Lock()
	defer canonMu.Unlock()
	return canonLocked(t)
}
func canonLocked(t types.Type) *TypeInfo {
	t = types.Unalias(t)
	if x := canonMap.At(t); x != nil {
		return x.(*TypeInfo)
	}
	canonN++
	ti := &TypeInfo{t: t, id: canonN, ki: kindOf(t)}
	canonMap.Set(t, ti)
	return ti
}

func kindOf(t types.Type) kinfo {
	switch u := t.Underlying().(type) {
	case *types.Basic:
		switch u.Kind() {
		case types.Bool, types.UntypedBool:
			return kinfo{k: kBool}
		case types.Int, types.UntypedInt, types.Int64:
			return kinfo{kInt, 64, true}
		case types.Int8:
			return kinfo{kInt, 8, true}
		case types.Int16:
			return kinfo{kInt, 16, true}
		case types.Int32, types.UntypedRune:
			return kinfo{kInt, 32, true}
		case types.Uint, types.Uint64, types.Uintptr:
			return kinfo{kInt, 64, false}
		case types.Uint8:
			return kinfo{kInt, 8, false}
		case types.Uint16:
			return kinfo{kInt, 16, false}
		case types.Uint32:
			return kinfo{kInt, 32, false}
		case types.Float32:
			return kinfo{kFloat, 32, true}
		case types.Float64, types.UntypedFloat:
			return kinfo{kFloat, 64, true}
		case types.String, types.UntypedString:
			return kinfo{k: kString}
		case types.UnsafePointer, types.UntypedNil:
			return kinfo{k: kPtr}
		}
		return kinfo{k: kOther}
	case *types.Struct, *types.Array:
		return kinfo{k: kAgg}
	case *types.Pointer:
		return kinfo{k: kPtr}
	case *types.Slice:
		return kinfo{k: kSlice}
	case *types.Map:
		return kinfo{k: kMap}
	case *types.Interface:
		return kinfo{k: kIface}
	case *types.Signature:
		return kinfo{k: kFunc}
	case *types.Tuple:
		return kinfo{k: kAgg}
	}
	return kinfo{k: kOther}
}

func zeroOf(t types.Type) Value {
	switch u := t.Underlying().(type) {
	case *types.Struct:
		s := &Struct{f: make([]Value, u.NumFields())}
		for i := range s.f {
			s.f[i] = zeroOf(u.Field(i).Type())
		}
		return Value{p: s}
	case *types.Array:
		n := int(u.Len())
		s := &Struct{f: make([]Value, n)}
		if k := kindOf(u.Elem()); k.k == kAgg {
			for i := range s.f {
				s.f[i] = zeroOf(u.Elem())
			}
		}
		return Value{p: s}
	case *types.Tuple:
		s := &Struct{f: make([]Value, u.Len())}
		for i := range s.f {
			s.f[i] = zeroOf(u.At(i).Type())
		}
		return Value{p: s}
	}
	return Value{}
}

func copyVal(v Value) Value {
	if s, ok := v.p.(*Struct); ok {
		n := &Struct{f: make([]Value, len(s.f))}
		for i := range s.f {
			n.f[i] = copyVal(s.f[i])
		}
		return Value{p: n}
	}
	return v
}

func vBool(b bool) Value {
	if b {
		return Value{n: 1}
	}
	return Value{}
}
func vInt(i int) Value { return Value{n: uint64(int64(i))} }
func vStr(s string) Value {
	if s == "" {
		return Value{}
	}
	return Value{p: s}
}
func vF(f float64) Value { return Value{n: math.Float64bits(f)} }

func (v Value) f64() float64 { return math.Float64frombits(v.n) }

func tuple(vs ...Value) Value { return Value{p: &Struct{f: vs}} }

func normInt(v uint64, ki kinfo) uint64 {
	if ki.w == 64 {
		return v
	}
	s := 64 - uint(ki.w)
	if ki.signed {
		return uint64(int64(v<<s) >> s)
	}
	return v << s >> s
}

// strBytes returns the bytes of a string value.
func strLen(v Value) int {
	switch s := v.p.(type) {
	case nil:
		return 0
	case string:
		return len(s)
	case *SymStr:
		return len(s.b)
	}
	panic(fmt.Sprintf("strLen: %T", v.p))
}

func strBytes(v Value) []Value {
	switch s := v.p.(type) {
	case nil:
		return nil
	case string:
		b := make([]Value, len(s))
		for i := 0; i < len(s); i++ {
			b[i].n = uint64(s[i])
		}
		return b
	case *SymStr:
		return s.b
	}
	panic(fmt.Sprintf("strBytes: %T", v.p))
}

func mkStr(b []Value) Value {
	if len(b) == 0 {
		return Value{}
	}
	for i := range b {
		if b[i].p != nil {
			c := make([]Value, len(b))
			copy(c, b)
			return Value{p: &SymStr{b: c}}
		}
	}
	bs := make([]byte, len(b))
	for i := range b {
		bs[i] = byte(b[i].n)
	}
	return Value{p: string(bs)}
}

func (v Value) isSymStr() bool { _, ok := v.p.(*SymStr); return ok }

func goStr(v Value) string {
	switch s := v.p.(type) {
	case nil:
		return ""
	case string:
		return s
	}
	panic(unsupported("concrete string needed"))
}

func sliceOf(v Value) []Value {
	if v.p == nil {
		return nil
	}
	if s, ok := v.p.(*Slice); ok {
		return s.a
	}
	panic(unsupported(fmt.Sprintf("slice of %T", v.p)))
}
func mkSlice(a []Value) Value { return Value{p: &Slice{a: a}} }

// ---- abort kinds

type abortKind int

const (
	abUnsupported abortKind = iota
	abAssumeFalse
	abBudget
	abSpec
	abViolation
	abDone
	abInfeasible
)

type pathAbort struct {
	kind abortKind
	msg  string
}

func unsupported(msg string) pathAbort { return pathAbort{abUnsupported, msg} }

// targetPanic is a Go-level panic of the interpreted program.
type targetPanic struct{ v Value }

// dbg formats a value for diagnostics.
func dbg(v Value) string {
	switch p := v.p.(type) {
	case nil:
		return fmt.Sprintf("%d", int64(v.n))
	case string:
		return fmt.Sprintf("%q", p)
	case *Term:
		return "sym:" + p.ref()
	case *SymStr:
		var sb strings.Builder
		sb.WriteString("symstr[")
		for _, b := range p.b {
			if b.p == nil {
				fmt.Fprintf(&sb, "%02x ", b.n)
			} else {
				sb.WriteString(b.p.(*Term).ref() + " ")
			}
		}
		return sb.String() + "]"
	case *Struct:
		var sb strings.Builder
		sb.WriteString("{")
		for _, f := range p.f {
			sb.WriteString(dbg(f) + " ")
		}
		return sb.String() + "}"
	case *Iface:
		return fmt.Sprintf("%v(%s)", p.t.t, dbg(p.v))
	case *Slice:
		return fmt.Sprintf("slice(len %d)", len(p.a))
	}
	return fmt.Sprintf("%T", v.p)
}
