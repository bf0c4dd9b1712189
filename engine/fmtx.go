package main

import (
	"fmt"
	"go/types"
	"strings"
)

// The formatting functions of fmt, for the operand types that have an
// obvious text. Symbolic strings stay symbolic.


// stringer calls Error or String when the operand has one.
func (m *Machine) stringer(x *Iface) (Value, bool) {
	ms := types.NewMethodSet(x.t.t)
	for _, n := range []string{"Error", "String"} {
		sel := ms.Lookup(nil, n)
		if sel == nil {
			continue
		}
		f, ok := sel.Obj().(*types.Func)
		if !ok {
			continue
		}
		sig := f.Type().(*types.Signature)
		if sig.Params().Len() != 0 || sig.Results().Len() != 1 {
			continue
		}
		if b, ok := sig.Results().At(0).Type().Underlying().(*types.Basic); !ok || b.Kind() != types.String {
			continue
		}
		fn := m.method(x.t, f)
		if fn == nil {
			continue
		}
		return m.call(fn, []Value{x.v}, nil), true
	}
	return Value{}, false
}

// native is the Go value of a concrete operand.
func (m *Machine) native(x *Iface) (any, bool) {
	switch u := x.t.t.Underlying().(type) {
	case *types.Basic:
		v := x.v
		if t, ok := v.p.(*Term); ok && u.Info()&types.IsInteger != 0 {
			n := m.concretize(t)
			v = Value{n: normInt(n, x.t.ki)}
		}
		if t, ok := v.p.(*Term); ok && u.Info()&types.IsBoolean != 0 {
			return m.decide(t), true
		}
		if v.p != nil && u.Info()&types.IsString == 0 {
			return nil, false
		}
		switch u.Kind() {
		case types.Bool:
			return v.n == 1, true
		case types.Int:
			return int(v.n), true
		case types.Int8:
			return int8(v.n), true
		case types.Int16:
			return int16(v.n), true
		case types.Int32:
			return int32(v.n), true
		case types.Int64:
			return int64(v.n), true
		case types.Uint:
			return uint(v.n), true
		case types.Uint8:
			return uint8(v.n), true
		case types.Uint16:
			return uint16(v.n), true
		case types.Uint32:
			return uint32(v.n), true
		case types.Uint64, types.Uintptr:
			return v.n, true
		case types.Float32:
			return float32(v.f64()), true
		case types.Float64:
			return v.f64(), true
		case types.String:
			if v.isSymStr() {
				return nil, false
			}
			return goStr(v), true
		}
	case *types.Slice:
		if b, ok := u.Elem().Underlying().(*types.Basic); ok {
			els := sliceOf(x.v)
			switch b.Kind() {
			case types.Uint8:
				out := make([]byte, len(els))
				for i := range els {
					if els[i].p != nil {
						return nil, false
					}
					out[i] = byte(els[i].n)
				}
				return out, true
			case types.String:
				out := make([]string, len(els))
				for i := range els {
					if els[i].isSymStr() {
						return nil, false
					}
					out[i] = goStr(els[i])
				}
				return out, true
			case types.Int:
				out := make([]int, len(els))
				for i := range els {
					if els[i].p != nil {
						return nil, false
					}
					out[i] = int(els[i].n)
				}
				return out, true
			}
		}
	}
	return nil, false
}

// plain is the text of an operand under %v and %s without flags.
func (m *Machine) plain(x *Iface, verb byte) Value {
	if x == nil {
		if verb == 's' {
			return vStr("%!s(<nil>)")
		}
		return vStr("<nil>")
	}
	if s, ok := m.stringer(x); ok {
		return s
	}
	switch u := x.t.t.Underlying().(type) {
	case *types.Basic:
		if u.Info()&types.IsString != 0 {
			return x.v
		}
	case *types.Slice:
		if b, ok := u.Elem().Underlying().(*types.Basic); ok && b.Kind() == types.Uint8 && verb == 's' {
			return mkStr(sliceOf(x.v))
		}
	}
	n, ok := m.native(x)
	if !ok {
		panic(unsupported("format operand " + x.t.t.String()))
	}
	return vStr(fmt.Sprintf("%"+string(verb), n))
}

func ifaceOf(v Value) *Iface {
	x, _ := v.p.(*Iface)
	return x
}

func (m *Machine) sprintf(format string, args []Value) Value {
	var out Value
	add := func(s string) { out = m.strCat(out, vStr(s)) }
	k := 0
	for len(format) > 0 {
		i := strings.IndexByte(format, '%')
		if i < 0 {
			add(format)
			break
		}
		add(format[:i])
		format = format[i+1:]
		j := 0
		for j < len(format) && strings.IndexByte("+-# 0123456789.", format[j]) >= 0 {
			j++
		}
		if j >= len(format) || format[j] == '*' || format[j] == '[' || format[j] >= 0x80 {
			panic(unsupported("format directive"))
		}
		flags, verb := format[:j], format[j]
		format = format[j+1:]
		if verb == '%' {
			add("%")
			continue
		}
		if k >= len(args) {
			add("%!" + string(verb) + "(MISSING)")
			continue
		}
		x := ifaceOf(args[k])
		k++
		if verb == 'w' {
			verb = 'v'
		}
		if flags == "" && (verb == 's' || verb == 'v') {
			out = m.strCat(out, m.plain(x, verb))
			continue
		}
		if x == nil {
			panic(unsupported("format nil"))
		}
		if verb == 'T' {
			panic(unsupported("format %T"))
		}
		if verb == 's' || verb == 'v' || verb == 'q' || verb == 'x' || verb == 'X' {
			if s, ok := m.stringer(x); ok {
				if s.isSymStr() {
					panic(unsupported("format symbolic"))
				}
				add(fmt.Sprintf("%"+flags+string(verb), goStr(s)))
				continue
			}
		}
		n, ok := m.native(x)
		if !ok {
			panic(unsupported("format operand"))
		}
		add(fmt.Sprintf("%"+flags+string(verb), n))
	}
	if k < len(args) {
		panic(unsupported("format: extra operands"))
	}
	return out
}

func (m *Machine) sprint(v Value, ln bool) Value {
	var out Value
	isStr := func(x *Iface) bool { return x != nil && x.t.ki.k == kString }
	args := sliceOf(v)
	for i, a := range args {
		x := ifaceOf(a)
		if i > 0 && (ln || !isStr(x) && !isStr(ifaceOf(args[i-1]))) {
			out = m.strCat(out, vStr(" "))
		}
		out = m.strCat(out, m.plain(x, 'v'))
	}
	if ln {
		out = m.strCat(out, vStr("\n"))
	}
	return out
}

// fprint writes the text to an io.Writer.
func (m *Machine) fprint(w, s Value) Value {
	x := ifaceOf(w)
	if x == nil {
		m.rtPanic("invalid memory address or nil pointer dereference")
	}
	sel := types.NewMethodSet(x.t.t).Lookup(nil, "Write")
	if sel == nil {
		panic(unsupported("Fprint"))
	}
	fn := m.method(x.t, sel.Obj().(*types.Func))
	if fn == nil || fn.Pkg != nil && fn.Pkg.Pkg.Path() == "os" {
		return tuple(Value{}, Value{})
	}
	return m.call(fn, []Value{x.v, mkSlice(append([]Value{}, strBytes(s)...))}, nil)
}

func fmtIntrinsics(I map[string]intrinsic) {
	I["fmt.Sprintf"] = func(m *Machine, a []Value, c *callCtx) Value { return m.sprintf(goStr(a[0]), sliceOf(a[1])) }
	I["fmt.Sprint"] = func(m *Machine, a []Value, c *callCtx) Value { return m.sprint(a[0], false) }
	I["fmt.Sprintln"] = func(m *Machine, a []Value, c *callCtx) Value { return m.sprint(a[0], true) }
	I["fmt.Errorf"] = func(m *Machine, a []Value, c *callCtx) Value { return m.newErr("<errorf>") }
	I["fmt.Fprintf"] = func(m *Machine, a []Value, c *callCtx) Value {
		return m.fprint(a[0], m.sprintf(goStr(a[1]), sliceOf(a[2])))
	}
	I["fmt.Fprint"] = func(m *Machine, a []Value, c *callCtx) Value { return m.fprint(a[0], m.sprint(a[1], false)) }
	I["fmt.Fprintln"] = func(m *Machine, a []Value, c *callCtx) Value { return m.fprint(a[0], m.sprint(a[1], true)) }
	I["fmt.Appendf"] = func(m *Machine, a []Value, c *callCtx) Value {
		s := m.sprintf(goStr(a[1]), sliceOf(a[2]))
		return mkSlice(append(append([]Value{}, sliceOf(a[0])...), strBytes(s)...))
	}
}
