package main

import (
	"fmt"
	"go/types"
	"sort"
	"strconv"
	"unicode/utf8"
)

func sortTerms(ts []*Term) { sort.Slice(ts, func(i, j int) bool { return before(ts[i], ts[j]) }) }

func (m *Machine) noSpec() {
	if m.spec > 0 {
		panic(pathAbort{abSpec, "effect"})
	}
}

func (m *Machine) fresh(v Value) {
	if m.spec == 0 {
		return
	}
	if s, ok := v.p.(*Struct); ok {
		for i := range s.f {
			m.path.freshC[&s.f[i]] = true
			m.fresh(s.f[i])
		}
	}
}

func (m *Machine) callBuiltin(fr *frame, in *PInstr, args []Value) Value {
	switch in.bi {
	case "len":
		switch p := args[0].p.(type) {
		case nil:
			return Value{}
		case string:
			return vInt(len(p))
		case *SymStr:
			return vInt(len(p.b))
		case *Slice:
			return vInt(len(p.a))
		case *Map:
			return vInt(p.live)
		case *Struct:
			return vInt(len(p.f))
		case *Value:
			return vInt(len(p.p.(*Struct).f))
		}
	case "cap":
		switch p := args[0].p.(type) {
		case nil:
			return Value{}
		case *Slice:
			return vInt(cap(p.a))
		case *Struct:
			return vInt(len(p.f))
		case *Value:
			return vInt(len(p.p.(*Struct).f))
		}
	case "append":
		a := sliceOf(args[0])
		var b []Value
		if in.ki2.k == kString {
			b = strBytes(args[1])
		} else {
			b = sliceOf(args[1])
		}
		if len(b) == 0 {
			return args[0]
		}
		et := in.typ.Underlying().(*types.Slice).Elem()
		ek := kindOf(et)
		n := len(a) + len(b)
		if n <= cap(a) {
			r := a[:n]
			if len(b) > 1 {
				t := make([]Value, len(b))
				for i := range b {
					t[i] = copyVal(b[i])
				}
				b = t
			}
			for i, v := range b {
				m.storeInto(&r[len(a)+i], v, ek, et)
			}
			return mkSlice(r)
		}
		nc := growCap(cap(a), n, stdSizes.Sizeof(et))
		r := make([]Value, n, nc)
		if ek.k == kAgg {
			for i := range a {
				r[i] = copyVal(a[i])
			}
			for i := range b {
				r[len(a)+i] = copyVal(b[i])
			}
			ext := r[n:nc]
			for i := range ext {
				ext[i] = zeroOf(et)
			}
		} else {
			copy(r, a)
			copy(r[len(a):], b)
		}
		return mkSlice(r)
	case "copy":
		d := sliceOf(args[0])
		var s []Value
		if in.ki2.k == kString {
			s = strBytes(args[1])
		} else {
			s = sliceOf(args[1])
		}
		et := in.typ.Underlying().(*types.Slice).Elem()
		ek := kindOf(et)
		n := min(len(d), len(s))
		if n == 0 {
			return Value{}
		}
		tmp := make([]Value, n)
		for i := 0; i < n; i++ {
			tmp[i] = copyVal(s[i])
		}
		for i := 0; i < n; i++ {
			m.storeInto(&d[i], tmp[i], ek, et)
		}
		return vInt(n)
	case "delete":
		mp, _ := args[0].p.(*Map)
		if mp != nil {
			m.mapDelete(mp, args[1])
		}
		return Value{}
	case "clear":
		switch p := args[0].p.(type) {
		case *Map:
			m.noSpec()
			m.mapMut(p)
			p.ents, p.idx, p.live, p.nsym = nil, map[string]int{}, 0, 0
		case *Slice:
			et := in.typ.Underlying().(*types.Slice).Elem()
			for i := range p.a {
				m.storeInto(&p.a[i], zeroOf(et), kindOf(et), et)
			}
		}
		return Value{}
	case "min", "max":
		ki := in.ki
		r := args[0]
		for _, y := range args[1:] {
			switch ki.k {
			case kInt:
				if r.p == nil && y.p == nil {
					less := r.n < y.n
					if ki.signed {
						less = int64(r.n) < int64(y.n)
					}
					if less != (in.bi == "min") {
						r = y
					}
					continue
				}
				op := OpUlt
				if ki.signed {
					op = OpSlt
				}
				a, b := m.term(r, ki), m.term(y, ki)
				c := m.tt.Cmp(op, a, b)
				if in.bi == "max" {
					c = m.tt.Cmp(op, b, a)
				}
				r = m.intV(m.tt.Ite(c, a, b), ki)
			case kFloat:
				isMin := in.bi == "min"
				r = m.floatFn(ki, func(a []float64) float64 {
					if isMin {
						return min(a[0], a[1])
					}
					return max(a[0], a[1])
				}, r, y)
			default:
				lt := m.decide(m.strLess(y, r, false))
				if lt == (in.bi == "min") {
					r = y
				}
			}
		}
		return r
	case "panic":
		if m.spec > 0 {
			panic(pathAbort{abSpec, "panic"})
		}
		panic(targetPanic{args[0]})
	case "recover":
		if n := len(m.panicking); n > 0 {
			fr := m.panicking[n-1]
			if fr.panicV != nil {
				v := fr.panicV.v
				fr.panicV = nil
				return v
			}
		}
		return Value{}
	case "print", "println":
		return Value{}
	case "ssa:wrapnilchk":
		if args[0].p == nil {
			m.rtPanic("value method called using nil pointer")
		}
		return args[0]
	case "String": // unsafe.String(ptr, len)
		n := m.concInt(args[1], kinfo{kInt, 64, true})
		switch p := args[0].p.(type) {
		case nil:
			return Value{}
		case *SliceData:
			return mkStr(p.a[:n])
		case *StrData:
			return mkStr(strBytes(p.s)[:n])
		}
	case "StringData":
		return Value{p: &StrData{args[0]}}
	case "SliceData":
		if args[0].p == nil {
			return Value{}
		}
		return Value{p: &SliceData{sliceOf(args[0])}}
	case "Slice":
		n := m.concInt(args[1], kinfo{kInt, 64, true})
		switch p := args[0].p.(type) {
		case nil:
			return Value{}
		case *SliceData:
			return mkSlice(p.a[:n])
		case *StrData:
			b := strBytes(p.s)[:n]
			return mkSlice(append([]Value{}, b...))
		}
	}
	panic(unsupported(fmt.Sprintf("builtin %s on %T", in.bi, args)))
}

// growCap is the capacity append gives, taken from the runtime itself for
// the common element sizes.
func growCap(old, need int, size int64) int {
	if need > 1<<20 {
		return max(need, 2*old)
	}
	switch size {
	case 1:
		return growN[byte](old, need)
	case 2:
		return growN[[2]byte](old, need)
	case 4:
		return growN[int32](old, need)
	case 8:
		return growN[*int](old, need)
	case 16:
		return growN[string](old, need)
	case 24:
		return growN[[]byte](old, need)
	case 32:
		return growN[[2]string](old, need)
	case 40:
		return growN[[5]*int](old, need)
	case 48:
		return growN[[3]string](old, need)
	case 56:
		return growN[[7]*int](old, need)
	case 64:
		return growN[[4]string](old, need)
	}
	if need > 2*old {
		return need
	}
	if old < 256 {
		return 2 * old
	}
	return max(need, old+(old+768)/4)
}

func growN[T any](old, need int) int {
	x := make([]T, old)
	return cap(append(x, make([]T, need-old)...))
}

var stdSizes = types.SizesFor("gc", "amd64")

// ---- maps

func (m *Machine) newMap(ti *TypeInfo) *Map {
	return &Map{ti: ti, idx: map[string]int{}}
}

// canonKey encodes a concrete key; ok=false when it has symbolic parts.
func (m *Machine) canonKey(v Value, t types.Type) (string, bool) {
	switch kindOf(t).k {
	case kString:
		switch s := v.p.(type) {
		case nil:
			return "", true
		case string:
			return s, true
		}
		return "", false
	case kInt, kBool:
		if v.p != nil {
			return "", false
		}
		return strconv.FormatUint(v.n, 36), true
	case kFloat:
		if v.p != nil {
			return "", false
		}
		return strconv.FormatUint(v.n, 36), true
	case kAgg:
		var out string
		s := v.p.(*Struct)
		for i := range s.f {
			var ft types.Type
			switch u := t.Underlying().(type) {
			case *types.Struct:
				ft = u.Field(i).Type()
			case *types.Array:
				ft = u.Elem()
			}
			k, ok := m.canonKey(s.f[i], ft)
			if !ok {
				return "", false
			}
			out += strconv.Itoa(len(k)) + ":" + k
		}
		return out, true
	case kIface:
		if v.p == nil {
			return "nil", true
		}
		i := v.p.(*Iface)
		k, ok := m.canonKey(i.v, i.t.t)
		return strconv.Itoa(i.t.id) + "|" + k, ok
	case kPtr:
		return fmt.Sprintf("%p", v.p), true
	}
	panic(unsupported("map key " + t.String()))
}

func (mp *Map) keyT() types.Type  { return mp.ti.t.Underlying().(*types.Map).Key() }
func (mp *Map) elemT() types.Type { return mp.ti.t.Underlying().(*types.Map).Elem() }

// mapFind returns the index of the entry equal to k, or -1 (may fork).
func (m *Machine) mapFind(mp *Map, k Value) int {
	kt := mp.keyT()
	ck, conc := m.canonKey(k, kt)
	if conc {
		if i, ok := mp.idx[ck]; ok {
			return i
		}
		if mp.nsym == 0 {
			return -1
		}
		for i := range mp.ents {
			e := &mp.ents[i]
			if e.dead || !e.sym {
				continue
			}
			if m.decide(m.equal(e.k, k, kt)) {
				return i
			}
		}
		return -1
	}
	ki := kindOf(kt)
	if ki.k == kInt && mp.live > 48 {
		t := k.p.(*Term)
		if !m.decide(m.mapHas(mp, k)) {
			return -1
		}
		c := m.concretize(t)
		v := Value{n: c}
		if ki.signed {
			v.n = uint64(sx(c, t.w))
		}
		return m.mapFind(mp, v)
	}
	for i := range mp.ents {
		e := &mp.ents[i]
		if e.dead {
			continue
		}
		if m.decide(m.equal(e.k, k, kt)) {
			return i
		}
	}
	return -1
}

// mapHas is the membership condition as a term (no fork).
func (m *Machine) mapHas(mp *Map, k Value) *Term {
	kt := mp.keyT()
	ki := kindOf(kt)
	ck, conc := m.canonKey(k, kt)
	if conc {
		if _, ok := mp.idx[ck]; ok {
			return m.tt.True
		}
		if mp.nsym == 0 {
			return m.tt.False
		}
	}
	var ors []*Term
	if ki.k == kInt && !conc && mp.live > 8 {
		t := k.p.(*Term)
		var vs []uint64
		for i := range mp.ents {
			e := &mp.ents[i]
			if e.dead {
				continue
			}
			if e.sym {
				ors = append(ors, m.equal(e.k, k, kt))
			} else {
				vs = append(vs, e.k.n&mask(t.w))
			}
		}
		sort.Slice(vs, func(i, j int) bool { return vs[i] < vs[j] })
		var rs [][2]uint64
		for _, v := range vs {
			if n := len(rs); n > 0 && rs[n-1][1]+1 >= v {
				rs[n-1][1] = v
			} else {
				rs = append(rs, [2]uint64{v, v})
			}
		}
		ors = append(ors, m.tt.In(t, rs))
		return m.tt.Or(ors...)
	}
	for i := range mp.ents {
		e := &mp.ents[i]
		if !e.dead {
			ors = append(ors, m.equal(e.k, k, kt))
		}
	}
	return m.tt.Or(ors...)
}

// mapMut snapshots the map for rollback.
func (m *Machine) mapMut(mp *Map) {
	if m.path.frozenM != nil && m.path.frozenM[mp] {
		m.frozenWrite()
	}
	if !m.logging {
		return
	}
	if m.path.ownMap[mp] {
		return
	}
	m.path.ownMap[mp] = true
	old := *mp
	oldEnts := append([]mapEnt{}, mp.ents...)
	oldIdx := make(map[string]int, len(mp.idx))
	for k, v := range mp.idx {
		oldIdx[k] = v
	}
	m.undo = append(m.undo, undoEnt{fn: func() {
		*mp = old
		mp.ents = oldEnts
		mp.idx = oldIdx
	}})
}

func (m *Machine) mapSet(mp *Map, k, v Value) {
	m.noSpec()
	i := m.mapFind(mp, k)
	m.mapMut(mp)
	if i >= 0 {
		mp.ents[i].v = v
		return
	}
	ck, conc := m.canonKey(k, mp.keyT())
	mp.ents = append(mp.ents, mapEnt{k: k, v: v, ck: ck, sym: !conc})
	if conc {
		mp.idx[ck] = len(mp.ents) - 1
	} else {
		mp.nsym++
	}
	mp.live++
}

func (m *Machine) mapDelete(mp *Map, k Value) {
	m.noSpec()
	i := m.mapFind(mp, k)
	if i < 0 {
		return
	}
	m.mapMut(mp)
	e := &mp.ents[i]
	e.dead = true
	if e.sym {
		mp.nsym--
	} else {
		delete(mp.idx, e.ck)
	}
	mp.live--
}

func (m *Machine) lookup(fr *frame, in *PInstr) {
	x, k := fr.get(in.a), fr.get(in.b)
	if in.ki.k == kString {
		panic(unsupported("string lookup"))
	}
	mp, _ := x.p.(*Map)
	if mp == nil {
		z := zeroOf(in.typ)
		if in.flag {
			fr.regs[in.dst] = tuple(z, Value{})
		} else {
			fr.regs[in.dst] = z
		}
		return
	}
	if in.flag && in.fast {
		_, conc := m.canonKey(k, mp.keyT())
		if !conc || mp.nsym > 0 {
			fr.regs[in.dst] = tuple(zeroOf(in.typ), m.boolV(m.mapHas(mp, k)))
			return
		}
	}
	if ek := kindOf(mp.elemT()); ek.k == kBool && !in.flag {
		_, conc := m.canonKey(k, mp.keyT())
		if !conc {
			var ors []*Term
			for i := range mp.ents {
				e := &mp.ents[i]
				if !e.dead {
					ors = append(ors, m.tt.And(m.equal(e.k, k, mp.keyT()), m.term(e.v, ek)))
				}
			}
			fr.regs[in.dst] = m.boolV(m.tt.Or(ors...))
			return
		}
	}
	i := m.mapFind(mp, k)
	if i >= 0 {
		v := mp.ents[i].v
		if in.flag {
			fr.regs[in.dst] = tuple(v, Value{n: 1})
		} else {
			fr.regs[in.dst] = v
		}
		return
	}
	z := zeroOf(in.typ)
	if in.flag {
		fr.regs[in.dst] = tuple(z, Value{})
	} else {
		fr.regs[in.dst] = z
	}
}

// ---- iteration

type Iter struct {
	str   []Value
	s     string
	isStr bool
	pos   *Value
	mp    *Map
	rem   []int // remaining entries under map-order nondeterminism
	nd    bool
	fixed bool // the order was chosen at the start
}

func (m *Machine) rangeIter(x Value, in *PInstr) Value {
	it := &Iter{pos: new(Value)}
	if m.spec > 0 {
		m.path.freshC[it.pos] = true
	}
	if in.ki.k == kString {
		it.isStr = true
		switch s := x.p.(type) {
		case nil:
		case string:
			it.s = s
		default:
			it.str = strBytes(x)
		}
		return Value{p: it}
	}
	it.mp, _ = x.p.(*Map)
	if it.mp != nil && m.path.mapOrder && it.mp.live > 1 {
		it.nd = true
		for i := range it.mp.ents {
			if !it.mp.ents[i].dead {
				it.rem = append(it.rem, i)
			}
		}
		if m.path.mapPicks++; len(it.rem) > 4 || m.path.mapPicks > 6 {
			// large maps and later loops: the direction chosen for all
			it.fixed = true
			if m.path.mapRev {
				for a, b := 0, len(it.rem)-1; a < b; a, b = a+1, b-1 {
					it.rem[a], it.rem[b] = it.rem[b], it.rem[a]
				}
			}
		}
	}
	return Value{p: it}
}

func (m *Machine) next(x Value, in *PInstr) Value {
	it := x.p.(*Iter)
	pos := int(it.pos.n)
	ik := kinfo{kInt, 64, true}
	if it.isStr {
		if it.str == nil {
			if pos >= len(it.s) {
				return tuple(Value{}, Value{}, Value{})
			}
			r, n := utf8.DecodeRuneInString(it.s[pos:])
			m.set(it.pos, vInt(pos+n), ik)
			return tuple(Value{n: 1}, vInt(pos), Value{n: uint64(int64(r))})
		}
		if pos >= len(it.str) {
			return tuple(Value{}, Value{}, Value{})
		}
		r, n := m.decodeRune(it.str[pos:])
		m.set(it.pos, vInt(pos+n), ik)
		return tuple(Value{n: 1}, vInt(pos), r)
	}
	if it.mp == nil {
		return tuple(Value{}, Value{}, Value{})
	}
	if it.nd {
		m.noSpec()
		// drop entries deleted meanwhile
		var rem []int
		for _, i := range it.rem {
			if !it.mp.ents[i].dead {
				rem = append(rem, i)
			}
		}
		it.rem = rem
		if len(rem) == 0 {
			return tuple(Value{}, Value{}, Value{})
		}
		k := 0
		if len(rem) > 1 && !it.fixed {
			k = m.pick(len(rem))
		}
		i := rem[k]
		it.rem = append(append([]int{}, rem[:k]...), rem[k+1:]...)
		e := it.mp.ents[i]
		return tuple(Value{n: 1}, e.k, e.v)
	}
	for pos < len(it.mp.ents) && it.mp.ents[pos].dead {
		pos++
	}
	if pos >= len(it.mp.ents) {
		m.set(it.pos, vInt(pos), ik)
		return tuple(Value{}, Value{}, Value{})
	}
	e := it.mp.ents[pos]
	m.set(it.pos, vInt(pos+1), ik)
	return tuple(Value{n: 1}, e.k, e.v)
}

// ---- utf8

const runeErr = 0xFFFD

var runeK = kinfo{kInt, 32, true}

func (m *Machine) runesOf(b []Value) []Value {
	out := []Value{}
	for i := 0; i < len(b); {
		r, n := m.decodeRune(b[i:])
		out = append(out, r)
		i += n
	}
	return out
}

func (m *Machine) decodeRune(b []Value) (Value, int) {
	if len(b) == 0 {
		return Value{n: runeErr}, 0
	}
	if b[0].p == nil {
		c := byte(b[0].n)
		if c < 0x80 {
			return Value{n: uint64(c)}, 1
		}
		// concrete prefix?
		var buf [4]byte
		k := 0
		for k < 4 && k < len(b) && b[k].p == nil {
			buf[k] = byte(b[k].n)
			k++
		}
		if k == len(b) || k == 4 || utf8.FullRune(buf[:k]) {
			r, n := utf8.DecodeRune(buf[:k])
			return Value{n: uint64(int64(r))}, n
		}
	}
	if e, ok := m.memoDecode(b); ok {
		return m.intV(e.r, runeK), e.n
	}
	tt := m.tt
	t := func(i int) *Term { return m.byteTerm(b[i]) }
	rng := func(i int, lo, hi uint64) *Term { return tt.In(t(i), [][2]uint64{{lo, hi}}) }
	z := func(i int, msk uint64) *Term {
		return tt.Zext(tt.Bin(OpBand, t(i), tt.Const(8, msk)), 32)
	}
	sh := func(x *Term, n uint64) *Term { return tt.Bin(OpShl, x, tt.Const(32, n)) }
	or := func(xs ...*Term) *Term {
		r := xs[0]
		for _, x := range xs[1:] {
			r = tt.Bin(OpBor, r, x)
		}
		return r
	}
	if m.decide(rng(0, 0, 0x7F)) {
		return m.intV(tt.Zext(t(0), 32), runeK), 1
	}
	n := len(b)
	if n >= 2 {
		c := tt.And(rng(0, 0xC2, 0xDF), rng(1, 0x80, 0xBF))
		if m.decide(c) {
			return m.intV(or(sh(z(0, 0x1F), 6), z(1, 0x3F)), runeK), 2
		}
	}
	if n >= 3 {
		c := tt.And(tt.Or(
			tt.And(rng(0, 0xE0, 0xE0), rng(1, 0xA0, 0xBF)),
			tt.And(tt.In(t(0), [][2]uint64{{0xE1, 0xEC}, {0xEE, 0xEF}}), rng(1, 0x80, 0xBF)),
			tt.And(rng(0, 0xED, 0xED), rng(1, 0x80, 0x9F))), rng(2, 0x80, 0xBF))
		if m.decide(c) {
			return m.intV(or(sh(z(0, 0x0F), 12), sh(z(1, 0x3F), 6), z(2, 0x3F)), runeK), 3
		}
	}
	if n >= 4 {
		c := tt.And(tt.Or(
			tt.And(rng(0, 0xF0, 0xF0), rng(1, 0x90, 0xBF)),
			tt.And(rng(0, 0xF1, 0xF3), rng(1, 0x80, 0xBF)),
			tt.And(rng(0, 0xF4, 0xF4), rng(1, 0x80, 0x8F))), rng(2, 0x80, 0xBF), rng(3, 0x80, 0xBF))
		if m.decide(c) {
			return m.intV(or(sh(z(0, 0x07), 18), sh(z(1, 0x3F), 12), sh(z(2, 0x3F), 6), z(3, 0x3F)), runeK), 4
		}
	}
	return Value{n: runeErr}, 1
}

func (m *Machine) memoDecode(b []Value) (encEnt, bool) {
	var k [4]*Term
	for i := 0; i < 4; i++ {
		if i < len(b) {
			k[i] = m.byteTerm(b[i])
		}
		if e, ok := m.encMemo[k]; ok && e.n == i+1 {
			return e, true
		}
	}
	return encEnt{}, false
}

func (m *Machine) encodeRune(v Value) []Value {
	if v.p == nil {
		r := rune(int32(v.n))
		s := string(r)
		out := make([]Value, len(s))
		for i := range out {
			out[i].n = uint64(s[i])
		}
		return out
	}
	t := v.p.(*Term)
	tt := m.tt
	in := func(rs ...[2]uint64) *Term { return tt.In(t, rs) }
	bv := func(x *Term) Value { return m.intV(x, kinfo{kInt, 8, false}) }
	part := func(shift, msk, lead uint64) *Term {
		x := tt.Bin(OpLshr, t, tt.Const(32, shift))
		x = tt.Bin(OpBand, x, tt.Const(32, msk))
		x = tt.Bin(OpBor, x, tt.Const(32, lead))
		return tt.Extract(x, 0, 8)
	}
	memo := func(out []Value) []Value {
		var k [4]*Term
		sym := false
		for i := range out {
			k[i] = m.byteTerm(out[i])
			if out[i].p != nil {
				sym = true
			}
		}
		if sym {
			m.encMemo[k] = encEnt{len(out), t}
		}
		return out
	}
	if m.decide(in([2]uint64{0, 0x7F})) {
		return memo([]Value{bv(tt.Extract(t, 0, 8))})
	}
	if m.decide(in([2]uint64{0x80, 0x7FF})) {
		return memo([]Value{bv(part(6, 0x1F, 0xC0)), bv(part(0, 0x3F, 0x80))})
	}
	if m.decide(in([2]uint64{0x800, 0xD7FF}, [2]uint64{0xE000, 0xFFFF})) {
		return memo([]Value{bv(part(12, 0x0F, 0xE0)), bv(part(6, 0x3F, 0x80)), bv(part(0, 0x3F, 0x80))})
	}
	if m.decide(in([2]uint64{0x10000, 0x10FFFF})) {
		return memo([]Value{bv(part(18, 0x07, 0xF0)), bv(part(12, 0x3F, 0x80)), bv(part(6, 0x3F, 0x80)), bv(part(0, 0x3F, 0x80))})
	}
	return []Value{{n: 0xEF}, {n: 0xBF}, {n: 0xBD}}
}
