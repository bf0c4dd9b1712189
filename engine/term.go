package main

// Hash-consed SMT terms over Bool and bit-vectors, with light
// simplification.  A TermTab belongs to one worker.

import (
	"fmt"
	"math/bits"
	"sort"
	"strings"
)

type Op uint8

const (
	OpConst Op = iota
	OpVar
	OpNot
	OpAnd
	OpOr
	OpIte
	OpEq
	OpUlt
	OpUle
	OpSlt
	OpSle
	OpAdd
	OpSub
	OpMul
	OpUdiv
	OpUrem
	OpSdiv
	OpSrem
	OpBand
	OpBor
	OpBxor
	OpShl
	OpLshr
	OpAshr
	OpExtract // n = low bit, w = width
	OpZext
	OpSext
	OpConcat
	OpIn // member of range set
)

type Term struct {
	id   uint32
	op   Op
	w    uint8 // 0 = Bool
	n    uint64
	a    []*Term
	set  *RangeSet
	name string
	lo   uint64 // unsigned bounds (BV)
	hi   uint64
	h    uint64 // structural hash, the same on every machine

	defined uint32 // solver generation in which the term was emitted
	litgen  uint32
	evalGen uint64
	evalVal uint64
	varMask []*Term // lazily computed variable list
}

// RangeSet is a sorted list of disjoint inclusive ranges.
type RangeSet struct {
	id int
	r  [][2]uint64
}

func (s *RangeSet) has(x uint64) bool {
	i := sort.Search(len(s.r), func(i int) bool { return s.r[i][1] >= x })
	return i < len(s.r) && s.r[i][0] <= x
}

type termKey struct {
	op      Op
	w       uint8
	n       uint64
	a, b, c uint32
	set     *RangeSet
}

type TermTab struct {
	next   uint32
	tab    map[termKey]*Term
	nary   map[string]*Term
	sets   map[string]*RangeSet
	vars   map[string]*Term
	True   *Term
	False  *Term
	evGen  uint64
	evEnv  map[*Term]uint64
	nTerms int
}

func NewTermTab() *TermTab {
	t := &TermTab{next: 1, tab: map[termKey]*Term{}, nary: map[string]*Term{}, sets: map[string]*RangeSet{}, vars: map[string]*Term{}}
	t.True = t.mk(termKey{op: OpConst, n: 1}, nil)
	t.False = t.mk(termKey{op: OpConst, n: 0}, nil)
	return t
}

func mask(w uint8) uint64 {
	if w >= 64 {
		return ^uint64(0)
	}
	return uint64(1)<<w - 1
}

func sx(v uint64, w uint8) int64 {
	if w >= 64 {
		return int64(v)
	}
	s := 64 - w
	return int64(v<<s) >> s
}

func (t *TermTab) mk(k termKey, args []*Term) *Term {
	if x, ok := t.tab[k]; ok {
		return x
	}
	x := &Term{id: t.next, op: k.op, w: k.w, n: k.n, a: args, set: k.set}
	t.next++
	t.nTerms++
	t.bounds(x)
	x.hash()
	t.tab[k] = x
	return x
}

func mix(h uint64) uint64 {
	h ^= h >> 33
	h *= 0xff51afd7ed558ccd
	h ^= h >> 29
	h *= 0xc4ceb9fe1a85ec53
	return h ^ h>>32
}

// hash does not depend on the order of the operands, which follows ids.
func (x *Term) hash() {
	h := mix(uint64(x.op)<<8|uint64(x.w)) + mix(x.n+0x9e3779b97f4a7c15)
	if x.set != nil {
		for _, r := range x.set.r {
			h = mix(h+r[0]*3) + r[1]
		}
	}
	for _, y := range x.a {
		h += mix(y.h + 0x51)
	}
	x.h = mix(h)
}

func (t *TermTab) bounds(x *Term) {
	if x.w == 0 {
		return
	}
	m := mask(x.w)
	x.lo, x.hi = 0, m
	switch x.op {
	case OpConst:
		x.lo, x.hi = x.n, x.n
	case OpIte:
		b, c := x.a[1], x.a[2]
		x.lo, x.hi = min(b.lo, c.lo), max(b.hi, c.hi)
	case OpAdd:
		a, b := x.a[0], x.a[1]
		s1, c1 := bits.Add64(a.lo, b.lo, 0)
		s2, c2 := bits.Add64(a.hi, b.hi, 0)
		if c1 == 0 && c2 == 0 && s2 <= m {
			x.lo, x.hi = s1, s2
		} else if b.op == OpConst && x.w < 64 {
			// wrap-around by adding a negative constant
			if a.lo+b.n > m && a.hi+b.n > m {
				x.lo, x.hi = (a.lo+b.n)&m, (a.hi+b.n)&m
			}
		} else if b.op == OpConst && x.w == 64 {
			if c1 == 1 && c2 == 1 {
				x.lo, x.hi = s1, s2
			}
		}
	case OpSub:
		a, b := x.a[0], x.a[1]
		if a.lo >= b.hi {
			x.lo, x.hi = a.lo-b.hi, a.hi-b.lo
		}
	case OpMul:
		a, b := x.a[0], x.a[1]
		h, l := bits.Mul64(a.hi, b.hi)
		if h == 0 && l <= m {
			x.lo, x.hi = a.lo*b.lo, l
		}
	case OpUdiv:
		a, b := x.a[0], x.a[1]
		if b.lo > 0 {
			x.lo, x.hi = a.lo/b.hi, a.hi/b.lo
		}
	case OpUrem:
		b := x.a[1]
		if b.lo > 0 {
			x.hi = min(b.hi-1, x.a[0].hi)
		}
	case OpBand:
		x.hi = min(x.a[0].hi, x.a[1].hi)
	case OpBor, OpBxor:
		h := x.a[0].hi | x.a[1].hi
		if h != 0 {
			x.hi = min(m, uint64(1)<<uint(bits.Len64(h))-1)
			if bits.Len64(h) == 64 {
				x.hi = m
			}
		} else {
			x.hi = 0
		}
		if x.op == OpBor {
			x.lo = max(x.a[0].lo, x.a[1].lo)
		}
	case OpShl:
		if x.a[1].op == OpConst {
			s := x.a[1].n
			if s < uint64(x.w) && bits.Len64(x.a[0].hi)+int(s) <= int(x.w) {
				x.lo, x.hi = x.a[0].lo<<s, x.a[0].hi<<s
			}
		}
	case OpLshr:
		if x.a[1].op == OpConst {
			s := x.a[1].n
			if s < 64 {
				x.lo, x.hi = x.a[0].lo>>s, x.a[0].hi>>s
			} else {
				x.lo, x.hi = 0, 0
			}
		}
	case OpExtract:
		if x.n == 0 && x.a[0].hi <= m {
			x.lo, x.hi = x.a[0].lo, x.a[0].hi
		}
	case OpZext:
		x.lo, x.hi = x.a[0].lo, x.a[0].hi
	case OpSext:
		if x.a[0].hi < uint64(1)<<(x.a[0].w-1) {
			x.lo, x.hi = x.a[0].lo, x.a[0].hi
		}
	}
}

func (t *TermTab) Const(w uint8, v uint64) *Term {
	return t.mk(termKey{op: OpConst, w: w, n: v & mask(w)}, nil)
}
func (t *TermTab) Bool(b bool) *Term {
	if b {
		return t.True
	}
	return t.False
}
func (t *TermTab) Var(name string, w uint8, lo, hi uint64) *Term {
	if x, ok := t.vars[name]; ok && x.w == w && x.lo == lo && x.hi == hi {
		return x
	}
	x := &Term{id: t.next, op: OpVar, w: w, name: fmt.Sprintf("%s_%d", name, t.next), lo: lo, hi: hi}
	for _, c := range name {
		x.h = mix(x.h + uint64(c))
	}
	x.h = mix(x.h + mix(lo) + hi*5 + uint64(w))
	t.next++
	t.vars[name] = x
	return x
}

func (x *Term) isC() bool { return x.op == OpConst }

func (t *TermTab) Not(x *Term) *Term {
	switch x.op {
	case OpConst:
		return t.Bool(x.n == 0)
	case OpNot:
		return x.a[0]
	case OpUlt:
		return t.cmp(OpUle, x.a[1], x.a[0])
	case OpUle:
		return t.cmp(OpUlt, x.a[1], x.a[0])
	case OpSlt:
		return t.cmp(OpSle, x.a[1], x.a[0])
	case OpSle:
		return t.cmp(OpSlt, x.a[1], x.a[0])
	}
	return t.mk(termKey{op: OpNot, a: x.id}, []*Term{x})
}

func (t *TermTab) naryKey(op Op, xs []*Term) string {
	var sb strings.Builder
	sb.WriteByte(byte(op))
	for _, x := range xs {
		sb.WriteByte(byte(x.id))
		sb.WriteByte(byte(x.id >> 8))
		sb.WriteByte(byte(x.id >> 16))
		sb.WriteByte(byte(x.id >> 24))
	}
	return sb.String()
}

func (t *TermTab) nary2(op Op, xs []*Term) *Term {
	unit, zero := t.True, t.False
	if op == OpOr {
		unit, zero = t.False, t.True
	}
	var out []*Term
	seen := map[*Term]bool{}
	var add func(x *Term) bool
	add = func(x *Term) bool {
		if x == zero {
			return false
		}
		if x == unit || seen[x] {
			return true
		}
		if x.op == op {
			for _, y := range x.a {
				if !add(y) {
					return false
				}
			}
			return true
		}
		seen[x] = true
		out = append(out, x)
		return true
	}
	for _, x := range xs {
		if !add(x) {
			return zero
		}
	}
	for _, x := range out {
		if x.op == OpNot && seen[x.a[0]] {
			return zero
		}
	}
	if len(out) == 0 {
		return unit
	}
	if len(out) == 1 {
		return out[0]
	}
	sort.Slice(out, func(i, j int) bool { return before(out[i], out[j]) })
	k := t.naryKey(op, out)
	if x, ok := t.nary[k]; ok {
		return x
	}
	x := &Term{id: t.next, op: op, a: out}
	x.hash()
	t.next++
	t.nary[k] = x
	return x
}

func (t *TermTab) And(xs ...*Term) *Term { return t.nary2(OpAnd, xs) }
func (t *TermTab) Or(xs ...*Term) *Term  { return t.nary2(OpOr, xs) }

func (t *TermTab) Ite(c, a, b *Term) *Term {
	if c == t.True || a == b {
		return a
	}
	if c == t.False {
		return b
	}
	if a.w == 0 {
		if a == t.True {
			return t.Or(c, b)
		}
		if a == t.False {
			return t.And(t.Not(c), b)
		}
		if b == t.True {
			return t.Or(t.Not(c), a)
		}
		if b == t.False {
			return t.And(c, a)
		}
	}
	if c.op == OpNot {
		c, a, b = c.a[0], b, a
	}
	// ite(c, x, ite(c, ..))
	if b.op == OpIte && b.a[0] == c {
		b = b.a[2]
	}
	if a.op == OpIte && a.a[0] == c {
		a = a.a[1]
	}
	if a == b {
		return a
	}
	return t.mk(termKey{op: OpIte, w: a.w, a: c.id, b: a.id, c: b.id}, []*Term{c, a, b})
}

func (t *TermTab) Eq(a, b *Term) *Term {
	if a == b {
		return t.True
	}
	if a.w == 0 {
		if a.isC() {
			a, b = b, a
		}
		if b == t.True {
			return a
		}
		if b == t.False {
			return t.Not(a)
		}
		if before(b, a) {
			a, b = b, a
		}
		return t.mk(termKey{op: OpEq, a: a.id, b: b.id}, []*Term{a, b})
	}
	if a.w != b.w {
		panic(fmt.Sprintf("Eq width %d vs %d", a.w, b.w))
	}
	if a.isC() && b.isC() {
		return t.Bool(a.n == b.n)
	}
	if a.hi < b.lo || b.hi < a.lo {
		return t.False
	}
	if a.isC() {
		a, b = b, a
	}
	if b.isC() {
		switch a.op {
		case OpBxor:
			if a.a[1].isC() {
				return t.Eq(a.a[0], t.Const(a.w, b.n^a.a[1].n))
			}
		case OpAdd:
			if a.a[1].isC() {
				return t.Eq(a.a[0], t.Const(a.w, b.n-a.a[1].n))
			}
		case OpSub:
			if a.a[1].isC() {
				return t.Eq(a.a[0], t.Const(a.w, b.n+a.a[1].n))
			}
		case OpZext:
			return t.Eq(a.a[0], t.Const(a.a[0].w, b.n))
		case OpSext:
			iw := a.a[0].w
			v := b.n & mask(iw)
			if uint64(sx(v, iw))&mask(a.w) != b.n {
				return t.False
			}
			return t.Eq(a.a[0], t.Const(iw, v))
		case OpIte:
			if a.a[1].isC() || a.a[2].isC() {
				return t.Ite(a.a[0], t.Eq(a.a[1], b), t.Eq(a.a[2], b))
			}
		}
		if a.lo == a.hi {
			return t.Bool(a.lo == b.n)
		}
	} else {
		if a.op == OpZext && b.op == OpZext && a.a[0].w == b.a[0].w {
			return t.Eq(a.a[0], b.a[0])
		}
		if a.op == OpSext && b.op == OpSext && a.a[0].w == b.a[0].w {
			return t.Eq(a.a[0], b.a[0])
		}
		if before(b, a) {
			a, b = b, a
		}
	}
	return t.mk(termKey{op: OpEq, a: a.id, b: b.id}, []*Term{a, b})
}

func (t *TermTab) cmp(op Op, a, b *Term) *Term {
	if a == b {
		return t.Bool(op == OpUle || op == OpSle)
	}
	switch op {
	case OpUlt:
		if a.hi < b.lo {
			return t.True
		}
		if a.lo >= b.hi {
			return t.False
		}
	case OpUle:
		if a.hi <= b.lo {
			return t.True
		}
		if a.lo > b.hi {
			return t.False
		}
	case OpSlt, OpSle:
		half := uint64(1) << (a.w - 1)
		// both known non-negative: unsigned compare
		if a.hi < half && b.hi < half {
			if op == OpSlt {
				return t.cmp(OpUlt, a, b)
			}
			return t.cmp(OpUle, a, b)
		}
		an := a.lo >= half
		bn := b.lo >= half
		if an && b.hi < half {
			return t.True
		}
		if bn && a.hi < half {
			return t.False
		}
		if an && bn {
			if op == OpSlt {
				return t.cmp(OpUlt, a, b)
			}
			return t.cmp(OpUle, a, b)
		}
	}
	// push through ite with constants
	if b.isC() && a.op == OpIte && (a.a[1].isC() || a.a[2].isC()) {
		return t.Ite(a.a[0], t.cmp(op, a.a[1], b), t.cmp(op, a.a[2], b))
	}
	if a.isC() && b.op == OpIte && (b.a[1].isC() || b.a[2].isC()) {
		return t.Ite(b.a[0], t.cmp(op, a, b.a[1]), t.cmp(op, a, b.a[2]))
	}
	if (op == OpUlt || op == OpUle) && a.op == OpZext && b.isC() {
		return t.cmp(op, a.a[0], t.Const(a.a[0].w, min(b.n, mask(a.a[0].w))))
	}
	if (op == OpUlt || op == OpUle) && b.op == OpZext && a.isC() {
		return t.cmp(op, t.Const(b.a[0].w, a.n), b.a[0])
	}
	return t.mk(termKey{op: op, a: a.id, b: b.id}, []*Term{a, b})
}

func (t *TermTab) Cmp(op Op, a, b *Term) *Term { return t.cmp(op, a, b) }

// FoldBin computes a binary BV operation on constants.
func foldBin(op Op, w uint8, a, b uint64) uint64 {
	m := mask(w)
	switch op {
	case OpAdd:
		return (a + b) & m
	case OpSub:
		return (a - b) & m
	case OpMul:
		return (a * b) & m
	case OpUdiv:
		if b == 0 {
			return m
		}
		return a / b
	case OpUrem:
		if b == 0 {
			return a
		}
		return a % b
	case OpSdiv:
		x, y := sx(a, w), sx(b, w)
		if y == 0 {
			if x < 0 {
				return 1
			}
			return m
		}
		if y == -1 {
			return uint64(-x) & m
		}
		return uint64(x/y) & m
	case OpSrem:
		x, y := sx(a, w), sx(b, w)
		if y == 0 {
			return a
		}
		if y == -1 {
			return 0
		}
		return uint64(x%y) & m
	case OpBand:
		return a & b
	case OpBor:
		return a | b
	case OpBxor:
		return a ^ b
	case OpShl:
		if b >= uint64(w) {
			return 0
		}
		return (a << b) & m
	case OpLshr:
		if b >= uint64(w) {
			return 0
		}
		return a >> b
	case OpAshr:
		if b >= uint64(w) {
			b = uint64(w) - 1
		}
		return uint64(sx(a, w)>>b) & m
	}
	panic("foldBin")
}

func (t *TermTab) Bin(op Op, a, b *Term) *Term {
	w := a.w
	if a.w != b.w {
		panic(fmt.Sprintf("Bin %d width %d vs %d", op, a.w, b.w))
	}
	if a.isC() && b.isC() {
		return t.Const(w, foldBin(op, w, a.n, b.n))
	}
	switch op {
	case OpAdd, OpMul, OpBand, OpBor, OpBxor:
		if a.isC() {
			a, b = b, a
		}
	}
	if b.isC() {
		switch op {
		case OpAdd, OpSub, OpBor, OpBxor, OpShl, OpLshr, OpAshr:
			if b.n == 0 {
				return a
			}
		case OpMul:
			if b.n == 0 {
				return b
			}
			if b.n == 1 {
				return a
			}
		case OpUdiv, OpSdiv:
			if b.n == 1 {
				return a
			}
		case OpBand:
			if b.n == 0 {
				return b
			}
			if b.n == mask(w) {
				return a
			}
			// a fits in a low mask
			if b.n&(b.n+1) == 0 && a.hi <= b.n {
				return a
			}
		}
		if op == OpSub {
			return t.Bin(OpAdd, a, t.Const(w, -b.n))
		}
		if op == OpAdd && a.op == OpAdd && a.a[1].isC() {
			return t.Bin(OpAdd, a.a[0], t.Const(w, a.a[1].n+b.n))
		}
		if op == OpBxor && a.op == OpBxor && a.a[1].isC() {
			return t.Bin(OpBxor, a.a[0], t.Const(w, a.a[1].n^b.n))
		}
		if a.op == OpIte && a.a[1].isC() && a.a[2].isC() {
			return t.Ite(a.a[0], t.Bin(op, a.a[1], b), t.Bin(op, a.a[2], b))
		}
		switch op {
		case OpShl, OpLshr:
			if b.n >= uint64(w) {
				return t.Const(w, 0)
			}
			if op == OpLshr && a.hi>>b.n == 0 {
				return t.Const(w, 0)
			}
		case OpUdiv:
			if b.n != 0 && a.hi < b.n {
				return t.Const(w, 0)
			}
		case OpUrem:
			if b.n != 0 && a.hi < b.n {
				return a
			}
		case OpSdiv, OpSrem:
			half := uint64(1) << (w - 1)
			if a.hi < half && b.n < half && b.n > 0 {
				if op == OpSdiv {
					return t.Bin(OpUdiv, a, b)
				}
				return t.Bin(OpUrem, a, b)
			}
		}
	}
	if a == b {
		switch op {
		case OpSub, OpBxor:
			return t.Const(w, 0)
		case OpBand, OpBor:
			return a
		}
	}
	switch op {
	case OpAdd, OpMul, OpBand, OpBor, OpBxor:
		if !b.isC() && before(b, a) {
			a, b = b, a
		}
	}
	return t.mk(termKey{op: op, w: w, a: a.id, b: b.id}, []*Term{a, b})
}

func (t *TermTab) Extract(x *Term, lo, w uint8) *Term {
	if lo == 0 && w == x.w {
		return x
	}
	if x.isC() {
		return t.Const(w, x.n>>lo)
	}
	if lo == 0 {
		switch x.op {
		case OpZext, OpSext:
			in := x.a[0]
			if in.w == w {
				return in
			}
			if in.w > w {
				return t.Extract(in, 0, w)
			}
			if x.op == OpZext {
				return t.Zext(in, w)
			}
			return t.Sext(in, w)
		case OpIte:
			if x.a[1].isC() || x.a[2].isC() {
				return t.Ite(x.a[0], t.Extract(x.a[1], lo, w), t.Extract(x.a[2], lo, w))
			}
		case OpAdd, OpSub, OpMul, OpBand, OpBor, OpBxor:
			return t.Bin(x.op, t.Extract(x.a[0], 0, w), t.Extract(x.a[1], 0, w))
		}
	}
	return t.mk(termKey{op: OpExtract, w: w, n: uint64(lo), a: x.id}, []*Term{x})
}

func (t *TermTab) Zext(x *Term, w uint8) *Term {
	if w == x.w {
		return x
	}
	if x.isC() {
		return t.Const(w, x.n)
	}
	if x.op == OpZext {
		return t.Zext(x.a[0], w)
	}
	if x.op == OpIte && (x.a[1].isC() || x.a[2].isC()) {
		return t.Ite(x.a[0], t.Zext(x.a[1], w), t.Zext(x.a[2], w))
	}
	return t.mk(termKey{op: OpZext, w: w, a: x.id}, []*Term{x})
}

func (t *TermTab) Sext(x *Term, w uint8) *Term {
	if w == x.w {
		return x
	}
	if x.isC() {
		return t.Const(w, uint64(sx(x.n, x.w)))
	}
	if x.hi < uint64(1)<<(x.w-1) {
		return t.Zext(x, w)
	}
	if x.op == OpSext {
		return t.Sext(x.a[0], w)
	}
	if x.op == OpIte && (x.a[1].isC() || x.a[2].isC()) {
		return t.Ite(x.a[0], t.Sext(x.a[1], w), t.Sext(x.a[2], w))
	}
	return t.mk(termKey{op: OpSext, w: w, a: x.id}, []*Term{x})
}

// In builds membership of x in the ranges, clipped to the bounds of x.
func (t *TermTab) In(x *Term, rs [][2]uint64) *Term {
	if x.isC() {
		for _, r := range rs {
			if r[0] <= x.n && x.n <= r[1] {
				return t.True
			}
		}
		return t.False
	}
	for x.op == OpZext {
		x = x.a[0]
	}
	var cl [][2]uint64
	for _, r := range rs {
		lo, hi := max(r[0], x.lo), min(r[1], x.hi)
		if lo > hi {
			continue
		}
		if n := len(cl); n > 0 && cl[n-1][1]+1 >= lo {
			if hi > cl[n-1][1] {
				cl[n-1][1] = hi
			}
			continue
		}
		cl = append(cl, [2]uint64{lo, hi})
	}
	if len(cl) == 0 {
		return t.False
	}
	if len(cl) == 1 {
		r := cl[0]
		if r[0] <= x.lo && r[1] >= x.hi {
			return t.True
		}
		if r[0] == r[1] {
			return t.Eq(x, t.Const(x.w, r[0]))
		}
		if r[0] <= x.lo {
			return t.cmp(OpUle, x, t.Const(x.w, r[1]))
		}
		if r[1] >= x.hi {
			return t.cmp(OpUle, t.Const(x.w, r[0]), x)
		}
		return t.And(t.cmp(OpUle, t.Const(x.w, r[0]), x), t.cmp(OpUle, x, t.Const(x.w, r[1])))
	}
	k := fmt.Sprint(cl)
	s := t.sets[k]
	if s == nil {
		s = &RangeSet{id: len(t.sets), r: cl}
		t.sets[k] = s
	}
	return t.mk(termKey{op: OpIn, a: x.id, set: s}, []*Term{x})
}

// ---- evaluation under a model

func (t *TermTab) SetEnv(env map[*Term]uint64) {
	t.evGen++
	t.evEnv = env
}

func (t *TermTab) Eval(x *Term) uint64 {
	if x.op == OpConst {
		return x.n
	}
	if x.evalGen == t.evGen {
		return x.evalVal
	}
	var v uint64
	b2 := func(b bool) uint64 {
		if b {
			return 1
		}
		return 0
	}
	switch x.op {
	case OpVar:
		var ok bool
		v, ok = t.evEnv[x]
		if !ok {
			v = x.lo
		}
	case OpNot:
		v = 1 - t.Eval(x.a[0])
	case OpAnd:
		v = 1
		for _, y := range x.a {
			if t.Eval(y) == 0 {
				v = 0
				break
			}
		}
	case OpOr:
		v = 0
		for _, y := range x.a {
			if t.Eval(y) == 1 {
				v = 1
				break
			}
		}
	case OpIte:
		if t.Eval(x.a[0]) == 1 {
			v = t.Eval(x.a[1])
		} else {
			v = t.Eval(x.a[2])
		}
	case OpEq:
		v = b2(t.Eval(x.a[0]) == t.Eval(x.a[1]))
	case OpUlt:
		v = b2(t.Eval(x.a[0]) < t.Eval(x.a[1]))
	case OpUle:
		v = b2(t.Eval(x.a[0]) <= t.Eval(x.a[1]))
	case OpSlt:
		w := x.a[0].w
		v = b2(sx(t.Eval(x.a[0]), w) < sx(t.Eval(x.a[1]), w))
	case OpSle:
		w := x.a[0].w
		v = b2(sx(t.Eval(x.a[0]), w) <= sx(t.Eval(x.a[1]), w))
	case OpExtract:
		v = (t.Eval(x.a[0]) >> x.n) & mask(x.w)
	case OpZext:
		v = t.Eval(x.a[0])
	case OpSext:
		v = uint64(sx(t.Eval(x.a[0]), x.a[0].w)) & mask(x.w)
	case OpIn:
		v = b2(x.set.has(t.Eval(x.a[0])))
	default:
		v = foldBin(x.op, x.w, t.Eval(x.a[0]), t.Eval(x.a[1]))
	}
	x.evalGen = t.evGen
	x.evalVal = v
	return v
}

// ---- SMT-LIB printing

var smtName = map[Op]string{
	OpNot: "not", OpAnd: "and", OpOr: "or", OpIte: "ite", OpEq: "=",
	OpUlt: "bvult", OpUle: "bvule", OpSlt: "bvslt", OpSle: "bvsle",
	OpAdd: "bvadd", OpSub: "bvsub", OpMul: "bvmul", OpUdiv: "bvudiv", OpUrem: "bvurem",
	OpSdiv: "bvsdiv", OpSrem: "bvsrem", OpBand: "bvand", OpBor: "bvor", OpBxor: "bvxor",
	OpShl: "bvshl", OpLshr: "bvlshr", OpAshr: "bvashr", OpConcat: "concat",
}

func constSMT(w uint8, v uint64) string {
	if w == 0 {
		if v == 1 {
			return "true"
		}
		return "false"
	}
	return fmt.Sprintf("(_ bv%d %d)", v, w)
}

func (x *Term) ref() string {
	switch x.op {
	case OpConst:
		return constSMT(x.w, x.n)
	case OpVar:
		return x.name
	}
	return fmt.Sprintf("t%d", x.id)
}

func (x *Term) body(sb *strings.Builder) {
	switch x.op {
	case OpExtract:
		fmt.Fprintf(sb, "((_ extract %d %d) %s)", int(x.n)+int(x.w)-1, x.n, x.a[0].ref())
	case OpZext:
		fmt.Fprintf(sb, "((_ zero_extend %d) %s)", x.w-x.a[0].w, x.a[0].ref())
	case OpSext:
		fmt.Fprintf(sb, "((_ sign_extend %d) %s)", x.w-x.a[0].w, x.a[0].ref())
	case OpIn:
		v := x.a[0].ref()
		w := x.a[0].w
		sb.WriteString("(or")
		for _, r := range x.set.r {
			if r[0] == r[1] {
				fmt.Fprintf(sb, " (= %s %s)", v, constSMT(w, r[0]))
			} else {
				fmt.Fprintf(sb, " (and (bvule %s %s) (bvule %s %s))", constSMT(w, r[0]), v, v, constSMT(w, r[1]))
			}
		}
		sb.WriteString(")")
	default:
		sb.WriteByte('(')
		sb.WriteString(smtName[x.op])
		for _, y := range x.a {
			sb.WriteByte(' ')
			sb.WriteString(y.ref())
		}
		sb.WriteByte(')')
	}
}

func (x *Term) sort() string {
	if x.w == 0 {
		return "Bool"
	}
	return fmt.Sprintf("(_ BitVec %d)", x.w)
}

// before orders terms the same way on every machine.
func before(a, b *Term) bool {
	if a.h != b.h {
		return a.h < b.h
	}
	return a.id < b.id
}
