package main

import (
	"fmt"
	"go/token"
	"go/types"
	"math"
	"os"

	"golang.org/x/tools/go/ssa"
)

type intrinsic func(m *Machine, args []Value, c *callCtx) Value

type callCtx struct {
	fn *ssa.Function
}

type undoEnt struct {
	p   *Value
	old Value
	ki  kinfo
	fn  func()
}

// Machine is one worker: an interpreter with its own program state, term
// table and solver.
type Machine struct {
	vals      map[uint8][]uint64 // values solver models gave to variables, by width
	guessed   int64              // witnesses found without the solver
	prog      *ssa.Program
	pfs       map[*ssa.Function]*PFunc
	globals   map[*ssa.Global]*Value
	inited    map[*ssa.Package]bool
	redirects map[string]*ssa.Function
	methC     map[methKey]*ssa.Function
	assertC   map[[2]int]bool
	tt        *TermTab
	sol       *Solver

	undo    []undoEnt
	logging bool
	steps   int64
	budget  int64
	total   int64
	depth   int

	regs []Value
	sp   int

	spec      int
	specSteps int64
	specLimit int64
	mergeFail map[*PBlock]int

	path pathState
	ex   *Explorer
	h    *Harness

	mapIDs    int
	encMemo   map[[4]*Term]encEnt
	funcSeen  map[*ssa.Function]bool
	rtErr     *TypeInfo
	panicking []*frame
	frames    []*frame
	rtCache   map[*Value][][2]uint64
	thorough  bool
}

type encEnt struct {
	n int
	r *Term
}

type methKey struct {
	t int
	m *types.Func
}

type frame struct {
	pf     *PFunc
	regs   []Value
	defers []deferred
	panicV *targetPanic
	retVal Value
	recov  bool
}

type deferred struct {
	fnv  Value
	args []Value
	fn   *ssa.Function
	bi   *PInstr
}

func (fr *frame) get(r ref) Value {
	if r >= 0 {
		return fr.regs[r]
	}
	return fr.pf.consts[-r-1]
}

const maxDepth = 1500

func (m *Machine) rtPanic(msg string) {
	if m.spec > 0 {
		panic(pathAbort{abSpec, msg})
	}
	panic(targetPanic{Value{p: &Iface{t: m.rtErr, v: vStr(msg)}}})
}

// ---- memory

func (m *Machine) set(p *Value, v Value, ki kinfo) {
	if m.logging {
		m.undo = append(m.undo, undoEnt{p: p, old: *p, ki: ki})
	}
	if m.path.frozen != nil {
		if _, ok := m.path.frozen[p]; ok {
			m.frozenWrite()
		}
	}
	*p = v
}

func (m *Machine) storeInto(p *Value, v Value, ki kinfo, t types.Type) {
	if ki.k == kAgg {
		d, ok := p.p.(*Struct)
		s, ok2 := v.p.(*Struct)
		if !ok || !ok2 {
			if !ok && ok2 {
				m.set(p, copyVal(v), ki)
				return
			}
			panic(unsupported("aggregate store"))
		}
		switch u := t.Underlying().(type) {
		case *types.Struct:
			for i := range s.f {
				ft := u.Field(i).Type()
				m.storeInto(&d.f[i], s.f[i], kindOf(ft), ft)
			}
		case *types.Array:
			et := u.Elem()
			ek := kindOf(et)
			for i := range s.f {
				m.storeInto(&d.f[i], s.f[i], ek, et)
			}
		default:
			panic(unsupported("aggregate store type"))
		}
		return
	}
	m.set(p, v, ki)
}

func (m *Machine) rollback(mark int) {
	for i := len(m.undo) - 1; i >= mark; i-- {
		e := &m.undo[i]
		if e.fn != nil {
			e.fn()
		} else {
			*e.p = e.old
		}
		*e = undoEnt{}
	}
	m.undo = m.undo[:mark]
}

// ---- calls

var traceOn = os.Getenv("VF_TRACE") != ""

func (m *Machine) call(fn *ssa.Function, args []Value, env []Value) Value {
	pf, ok := m.pfs[fn]
	if !ok {
		pf = m.prep(fn)
	}
	if pf.intr != nil {
		return pf.intr(m, args, &callCtx{fn: fn})
	}
	if pf.redirect != nil {
		return m.call(pf.redirect, args, env)
	}
	if pf.skipInit {
		return Value{}
	}
	if pf.nobody {
		panic(unsupported("no body: " + pf.name))
	}
	pf.calls++
	m.depth++
	if m.depth > maxDepth {
		panic(pathAbort{abBudget, "call depth"})
	}
	saveSp := m.sp
	if m.sp+pf.nregs > len(m.regs) {
		m.regs = make([]Value, max(1<<14, pf.nregs*2))
		m.sp = 0
	}
	savedRegs := m.regs
	regs := m.regs[m.sp : m.sp+pf.nregs : m.sp+pf.nregs]
	m.sp += pf.nregs
	if len(args) != pf.nparams {
		panic(unsupported(fmt.Sprintf("arity %s: %d vs %d", pf.name, len(args), pf.nparams)))
	}
	copy(regs, args)
	copy(regs[pf.nparams:], env)
	fr := &frame{pf: pf, regs: regs}
	var res Value
	if traceOn {
		defer func() {
			if r := recover(); r != nil {
				if pa, ok := r.(pathAbort); ok && pa.kind == abUnsupported {
					fmt.Fprintln(os.Stderr, "   trace:", pf.name)
				}
				if tp, ok := r.(targetPanic); ok {
					fmt.Fprintln(os.Stderr, "   panic trace:", pf.name, m.panicMsg(tp))
				}
				panic(r)
			}
		}()
	}
	if pf.hasDefer {
		res = m.runDeferFrame(fr)
	} else {
		_, _, res = m.runBlocks(fr, pf.blocks[0], nil, nil)
	}
	m.depth--
	_ = savedRegs
	m.sp = saveSp
	return res
}

func (m *Machine) runDeferFrame(fr *frame) (res Value) {
	depth, sp := m.depth, m.sp
	done := func() (ok bool) {
		defer func() {
			if ok {
				return
			}
			r := recover()
			tp, is := r.(targetPanic)
			if !is {
				panic(r)
			}
			m.depth, m.sp = depth, sp
			fr.panicV = &tp
		}()
		_, _, res = m.runBlocks(fr, fr.pf.blocks[0], nil, nil)
		return true
	}()
	if done {
		return res
	}
	// panicking: run deferred calls
	m.panicking = append(m.panicking, fr)
	for len(fr.defers) > 0 {
		m.runOneDefer(fr)
	}
	m.panicking = m.panicking[:len(m.panicking)-1]
	if fr.panicV != nil {
		panic(*fr.panicV)
	}
	// recovered
	if fr.pf.recover != nil {
		_, _, res = m.runBlocks(fr, fr.pf.recover, nil, nil)
		return res
	}
	return zeroOf(fr.pf.fn.Signature.Results())
}

func (m *Machine) runOneDefer(fr *frame) {
	d := fr.defers[len(fr.defers)-1]
	fr.defers = fr.defers[:len(fr.defers)-1]
	depth, sp := m.depth, m.sp
	func() {
		ok := false
		defer func() {
			if ok {
				return
			}
			r := recover()
			tp, is := r.(targetPanic)
			if !is {
				panic(r)
			}
			m.depth, m.sp = depth, sp
			fr.panicV = &tp
		}()
		if d.bi != nil {
			m.callBuiltin(fr, d.bi, d.args)
		} else if d.fn != nil {
			m.call(d.fn, d.args, nil)
		} else {
			m.callVal(d.fnv, d.args)
		}
		ok = true
	}()
}

func (m *Machine) callVal(fv Value, args []Value) Value {
	switch c := fv.p.(type) {
	case *Closure:
		return m.call(c.fn, args, c.env)
	case nil:
		m.rtPanic("invalid memory address or nil pointer dereference")
	}
	panic(unsupported(fmt.Sprintf("call of %T", fv.p)))
}

func (m *Machine) method(ti *TypeInfo, meth *types.Func) *ssa.Function {
	k := methKey{ti.id, meth}
	if f, ok := m.methC[k]; ok {
		return f
	}
	f := m.prog.LookupMethod(ti.t, meth.Pkg(), meth.Name())
	m.methC[k] = f
	return f
}

type exitKind int

const (
	exRet exitKind = iota
	exStop
)

// runBlocks executes from block b (entered from prev) until return, or until
// control is about to enter stop.
func (m *Machine) runBlocks(fr *frame, b, prev, stop *PBlock) (exitKind, *PBlock, Value) {
	var phiTmp [8]Value
	skipPhi := false
	for {
		if b == stop && stop != nil {
			return exStop, prev, Value{}
		}
		if len(b.phis) > 0 && !skipPhi {
			pi := b.predIx[prev]
			if len(b.phis) == 1 {
				fr.regs[b.phis[0].dst] = fr.get(b.phis[0].edges[pi])
			} else {
				tmp := phiTmp[:0]
				for i := range b.phis {
					tmp = append(tmp, fr.get(b.phis[i].edges[pi]))
				}
				for i := range b.phis {
					fr.regs[b.phis[i].dst] = tmp[i]
				}
			}
		}
		skipPhi = false
		m.steps += int64(len(b.ins))
		if m.steps > m.budget {
			panic(pathAbort{abBudget, "step budget"})
		}
		if m.spec > 0 && m.steps-m.specSteps > m.specLimit {
			panic(pathAbort{abSpec, "spec budget"})
		}
		var next *PBlock
		for k := range b.ins {
			in := &b.ins[k]
			switch in.op {
			case iAlloc:
				c := new(Value)
				if !in.flag {
					*c = zeroOf(in.typ)
				}
				fr.regs[in.dst] = Value{p: c}
			case iBinOp:
				x, y := fr.get(in.a), fr.get(in.b)
				if in.fast && x.p == nil && y.p == nil {
					fr.regs[in.dst] = m.intBin(in, x.n, y.n)
				} else {
					fr.regs[in.dst] = m.binop(in, x, y)
				}
			case iUnNot:
				x := fr.get(in.a)
				if x.p != nil {
					fr.regs[in.dst] = m.boolV(m.tt.Not(x.p.(*Term)))
				} else {
					fr.regs[in.dst] = Value{n: 1 - x.n}
				}
			case iUnNeg:
				fr.regs[in.dst] = m.neg(in, fr.get(in.a))
			case iUnCompl:
				x := fr.get(in.a)
				if t, ok := x.p.(*Term); ok {
					fr.regs[in.dst] = m.intV(m.tt.Bin(OpBxor, t, m.tt.Const(t.w, ^uint64(0))), in.ki)
				} else {
					fr.regs[in.dst] = Value{n: normInt(^x.n, in.ki)}
				}
			case iLoad:
				x := fr.get(in.a)
				if p, ok := x.p.(*Value); ok {
					if in.ki.k == kAgg {
						fr.regs[in.dst] = copyVal(*p)
					} else {
						fr.regs[in.dst] = *p
					}
				} else {
					fr.regs[in.dst] = m.load(x, in.ki)
				}
			case iStore:
				x := fr.get(in.a)
				if p, ok := x.p.(*Value); ok {
					if in.ki.k == kAgg {
						m.storeInto(p, fr.get(in.b), in.ki, in.typ)
					} else {
						m.set(p, fr.get(in.b), in.ki)
					}
				} else {
					m.store(x, fr.get(in.b), in.ki, in.typ)
				}
			case iCall:
				r := m.doCall(fr, in)
				fr.regs[in.dst] = r
			case iExtract:
				fr.regs[in.dst] = fr.get(in.a).p.(*Struct).f[in.n]
			case iField:
				fr.regs[in.dst] = fr.get(in.a).p.(*Struct).f[in.n]
			case iFieldAddr:
				p, ok := fr.get(in.a).p.(*Value)
				if !ok {
					if sp, is := fr.get(in.a).p.(*SymPtr); is {
						fr.regs[in.dst] = Value{p: &SymPtr{a: sp.a, idx: sp.idx, path: append(append([]int(nil), sp.path...), in.n)}}
						break
					}
					m.badPtr(fr.get(in.a))
				}
				s, ok := p.p.(*Struct)
				if !ok {
					panic(unsupported("FieldAddr on " + fmt.Sprintf("%T in %s", p.p, fr.pf.fn)))
				}
				fr.regs[in.dst] = Value{p: &s.f[in.n]}
			case iIndexAddr:
				m.indexAddr(fr, in)
			case iIndex:
				m.index(fr, in)
			case iJump:
				next = b.succs[0]
			case iIf:
				c := fr.get(in.a)
				if c.p == nil {
					if c.n != 0 {
						next = b.succs[0]
					} else {
						next = b.succs[1]
					}
					break
				}
				t := c.p.(*Term)
				if v, ok := m.known(t); ok {
					if v {
						next = b.succs[0]
					} else {
						next = b.succs[1]
					}
					break
				}
				if b.merge && b.hasPD && m.mergeFail[b] < 3 && !m.ex.noMerge {
					ok, nb, np, rv := m.tryMerge(fr, b, t)
					if ok {
						if nb == nil {
							return exRet, b, rv
						}
						next = nb
						b = np
						skipPhi = true
						break
					}
				}
				if m.decide(t) {
					next = b.succs[0]
				} else {
					next = b.succs[1]
				}
			case iReturn:
				switch len(in.args) {
				case 0:
					return exRet, b, Value{}
				case 1:
					return exRet, b, fr.get(in.args[0])
				default:
					s := &Struct{f: make([]Value, len(in.args))}
					for i, a := range in.args {
						s.f[i] = fr.get(a)
					}
					return exRet, b, Value{p: s}
				}
			case iChangeType:
				fr.regs[in.dst] = fr.get(in.a)
			case iChangeIface:
				fr.regs[in.dst] = fr.get(in.a)
			case iConvert:
				fr.regs[in.dst] = m.convert(in, fr.get(in.a))
			case iMakeIface:
				fr.regs[in.dst] = Value{p: &Iface{t: in.ti, v: fr.get(in.a)}}
			case iMakeClosure:
				env := make([]Value, len(in.args))
				for i, a := range in.args {
					env[i] = fr.get(a)
				}
				fr.regs[in.dst] = Value{p: &Closure{fn: in.fn, env: env}}
			case iMakeSlice:
				n := m.concInt(fr.get(in.a), in.ki)
				cp := m.concInt(fr.get(in.b), in.ki2)
				if n < 0 || n > cp || cp > 1<<28 {
					m.rtPanic("makeslice: len out of range")
				}
				if cp > 1<<22 {
					panic(unsupported("huge makeslice"))
				}
				a := make([]Value, cp)
				if !in.flag {
					for i := range a {
						a[i] = zeroOf(in.typ)
					}
				}
				fr.regs[in.dst] = mkSlice(a[:n])
			case iMakeMap:
				fr.regs[in.dst] = Value{p: m.newMap(in.ti)}
			case iMapUpdate:
				mp, _ := fr.get(in.a).p.(*Map)
				if mp == nil {
					m.rtPanic("assignment to entry in nil map")
				}
				m.mapSet(mp, fr.get(in.b), fr.get(in.c))
			case iLookup:
				m.lookup(fr, in)
			case iSlice:
				fr.regs[in.dst] = m.slice(fr, in)
			case iRange:
				fr.regs[in.dst] = m.rangeIter(fr.get(in.a), in)
			case iNext:
				fr.regs[in.dst] = m.next(fr.get(in.a), in)
			case iTypeAssert:
				fr.regs[in.dst] = m.typeAssert(in, fr.get(in.a))
			case iPanic:
				if m.spec > 0 {
					panic(pathAbort{abSpec, "panic"})
				}
				panic(targetPanic{fr.get(in.a)})
			case iDefer:
				d := deferred{}
				for _, a := range in.args {
					d.args = append(d.args, fr.get(a))
				}
				if in.bi != "" {
					d.bi = in
				} else if in.meth != nil {
					ifv, _ := fr.get(in.a).p.(*Iface)
					if ifv == nil {
						m.rtPanic("invalid memory address or nil pointer dereference")
					}
					d.fn = m.method(ifv.t, in.meth)
					d.args = append([]Value{ifv.v}, d.args...)
				} else if in.fn != nil {
					d.fn = in.fn
				} else {
					d.fnv = fr.get(in.a)
				}
				fr.defers = append(fr.defers, d)
			case iRunDefers:
				for len(fr.defers) > 0 {
					m.runOneDefer(fr)
				}
				if fr.panicV != nil {
					panic(*fr.panicV)
				}
			default:
				panic(unsupported(fmt.Sprintf("instr %T in %s", in.in, fr.pf.name)))
			}
			if next != nil {
				break
			}
		}
		if next == nil {
			panic(unsupported("fell off block in " + fr.pf.name))
		}
		if skipPhi {
			// b was set to the merge predecessor
			prev = b
			b = next
			if b == stop && stop != nil {
				// phis of stop were already merged; signal via prev=nil
				return exStop, nil, Value{}
			}
			continue
		}
		prev = b
		b = next
	}
}

func (m *Machine) badPtr(v Value) {
	if v.p == nil {
		m.rtPanic("invalid memory address or nil pointer dereference")
	}
	if u, ok := v.p.(uninitGlobal); ok {
		panic(unsupported("global of uninitialised package: " + u.g.String()))
	}
	panic(unsupported(fmt.Sprintf("pointer %T", v.p)))
}

func (m *Machine) load(x Value, ki kinfo) Value {
	switch p := x.p.(type) {
	case *SymPtr:
		return m.symReadAt(len(p.a), p.cell, p.idx, ki)
	case *SliceData:
		if len(p.a) > 0 {
			return p.a[0]
		}
	}
	m.badPtr(x)
	return Value{}
}

func (m *Machine) store(x Value, v Value, ki kinfo, t types.Type) {
	if p, ok := x.p.(*SymPtr); ok {
		i := m.concretize(p.idx)
		m.storeInto(p.cell(i), v, ki, t)
		return
	}
	m.badPtr(x)
}

// symRead reads a[idx] for a symbolic in-bounds idx.
func (m *Machine) symRead(a []Value, idx *Term, ki kinfo) Value {
	return m.symReadAt(len(a), func(i uint64) *Value { return &a[i] }, idx, ki)
}

func (m *Machine) symReadAt(n int, cell func(i uint64) *Value, idx *Term, ki kinfo) Value {
	d := m.domOf(idx)
	lo, hi := d[0], d[1]
	if hi >= uint64(n) {
		hi = uint64(n) - 1
	}
	if hi-lo <= 1024 && (ki.k == kInt || ki.k == kBool) {
		type grp struct {
			v  Value
			rs [][2]uint64
		}
		var order []*grp
		by := map[Value]*grp{}
		ok := true
		for i := lo; i <= hi; i++ {
			v := *cell(i)
			if v.p != nil {
				if _, t := v.p.(*Term); !t {
					ok = false
					break
				}
			}
			g := by[v]
			if g == nil {
				g = &grp{v: v}
				by[v] = g
				order = append(order, g)
			}
			if n := len(g.rs); n > 0 && g.rs[n-1][1]+1 == i {
				g.rs[n-1][1] = i
			} else {
				g.rs = append(g.rs, [2]uint64{i, i})
			}
		}
		if ok && len(order) <= 96 {
			// the largest group is the default
			best := 0
			for i, g := range order {
				if len(g.rs) > len(order[best].rs) {
					best = i
				}
			}
			res := m.term(order[best].v, ki)
			for i, g := range order {
				if i != best {
					res = m.tt.Ite(m.tt.In(idx, g.rs), m.term(g.v, ki), res)
				}
			}
			return m.termV(res, ki)
		}
	}
	i := m.concretize(idx)
	return copyVal(*cell(i))
}

func (m *Machine) indexAddr(fr *frame, in *PInstr) {
	x := fr.get(in.a)
	var a []Value
	switch p := x.p.(type) {
	case *Slice:
		a = p.a
	case *Value:
		s, ok := p.p.(*Struct)
		if !ok {
			panic(unsupported("IndexAddr"))
		}
		a = s.f
	case nil:
		if in.ki.k == kPtr {
			m.rtPanic("invalid memory address or nil pointer dereference")
		}
	default:
		m.badPtr(x)
	}
	iv := fr.get(in.b)
	if iv.p == nil {
		i := int64(iv.n)
		if i < 0 || i >= int64(len(a)) || (!in.ki2.signed && iv.n >= uint64(len(a))) {
			m.rtPanic(fmt.Sprintf("index out of range [%d] with length %d", i, len(a)))
		}
		fr.regs[in.dst] = Value{p: &a[i]}
		return
	}
	t := m.boundIdx(iv.p.(*Term), in.ki2, len(a))
	if t.isC() {
		fr.regs[in.dst] = Value{p: &a[t.n]}
		return
	}
	fr.regs[in.dst] = Value{p: &SymPtr{a: a, idx: t}}
}

// boundIdx checks a symbolic index against length n (panicking on the
// out-of-range side) and returns it as a 64-bit term.
func (m *Machine) boundIdx(t *Term, ki kinfo, n int) *Term {
	if t.w < 64 {
		if ki.signed {
			t = m.tt.Sext(t, 64)
		} else {
			t = m.tt.Zext(t, 64)
		}
	}
	if n == 0 || !m.decide(m.tt.Cmp(OpUlt, t, m.tt.Const(64, uint64(n)))) {
		m.rtPanic(fmt.Sprintf("index out of range [symbolic] with length %d", n))
	}
	return t
}

func (m *Machine) index(fr *frame, in *PInstr) {
	x := fr.get(in.a)
	iv := fr.get(in.b)
	var a []Value
	if in.ki.k == kString {
		if s, ok := x.p.(string); ok && iv.p == nil {
			i := int64(iv.n)
			if i < 0 || i >= int64(len(s)) {
				m.rtPanic(fmt.Sprintf("index out of range [%d] with length %d", i, len(s)))
			}
			fr.regs[in.dst] = Value{n: uint64(s[i])}
			return
		}
		a = strBytes(x)
	} else {
		a = x.p.(*Struct).f
	}
	if iv.p == nil {
		i := int64(iv.n)
		if i < 0 || i >= int64(len(a)) || (!in.ki2.signed && iv.n >= uint64(len(a))) {
			m.rtPanic(fmt.Sprintf("index out of range [%d] with length %d", i, len(a)))
		}
		fr.regs[in.dst] = a[i]
		return
	}
	t := m.boundIdx(iv.p.(*Term), in.ki2, len(a))
	if t.isC() {
		fr.regs[in.dst] = a[t.n]
		return
	}
	ki := kinfo{kInt, 8, false}
	if in.ki.k != kString {
		ki = kindOf(in.typ)
	}
	fr.regs[in.dst] = m.symRead(a, t, ki)
}

func (m *Machine) doCall(fr *frame, in *PInstr) Value {
	if in.bi != "" {
		var buf [4]Value
		args := buf[:0]
		for _, a := range in.args {
			args = append(args, fr.get(a))
		}
		return m.callBuiltin(fr, in, args)
	}
	if in.meth != nil {
		x := fr.get(in.a)
		ifv, _ := x.p.(*Iface)
		if ifv == nil {
			if x.p == nil {
				m.rtPanic("invalid memory address or nil pointer dereference")
			}
			panic(unsupported(fmt.Sprintf("invoke on %T", x.p)))
		}
		f := m.method(ifv.t, in.meth)
		if f == nil {
			panic(unsupported("method " + in.meth.String()))
		}
		args := make([]Value, 0, 8)
		args = append(args, ifv.v)
		for _, a := range in.args {
			args = append(args, fr.get(a))
		}
		return m.call(f, args, nil)
	}
	var buf [8]Value
	args := buf[:0]
	for _, a := range in.args {
		args = append(args, fr.get(a))
	}
	if in.fn != nil {
		return m.call(in.fn, args, nil)
	}
	return m.callVal(fr.get(in.a), args)
}

// ---- conversions between values and terms

func (m *Machine) term(v Value, ki kinfo) *Term {
	if v.p == nil {
		if ki.k == kBool {
			return m.tt.Bool(v.n != 0)
		}
		return m.tt.Const(ki.w, v.n)
	}
	return v.p.(*Term)
}

func (m *Machine) boolV(t *Term) Value {
	if t.isC() {
		return Value{n: t.n}
	}
	return Value{p: t}
}

func (m *Machine) intV(t *Term, ki kinfo) Value {
	if t.isC() {
		if ki.signed {
			return Value{n: uint64(sx(t.n, t.w))}
		}
		return Value{n: t.n}
	}
	return Value{p: t}
}

func (m *Machine) termV(t *Term, ki kinfo) Value {
	if ki.k == kBool {
		return m.boolV(t)
	}
	return m.intV(t, ki)
}

func (m *Machine) concInt(v Value, ki kinfo) int {
	if v.p == nil {
		return int(int64(v.n))
	}
	t := v.p.(*Term)
	c := m.concretize(t)
	if ki.signed {
		return int(sx(c, t.w))
	}
	return int(c)
}

// ---- operators

func (m *Machine) intBin(in *PInstr, a, b uint64) Value {
	ki := in.ki
	switch in.tok {
	case token.ADD:
		return Value{n: normInt(a+b, ki)}
	case token.SUB:
		return Value{n: normInt(a-b, ki)}
	case token.MUL:
		return Value{n: normInt(a*b, ki)}
	case token.QUO:
		if b == 0 {
			m.rtPanic("integer divide by zero")
		}
		if ki.signed {
			if int64(b) == -1 {
				return Value{n: normInt(-a, ki)}
			}
			return Value{n: normInt(uint64(int64(a)/int64(b)), ki)}
		}
		return Value{n: a / b}
	case token.REM:
		if b == 0 {
			m.rtPanic("integer divide by zero")
		}
		if ki.signed {
			if int64(b) == -1 {
				return Value{}
			}
			return Value{n: normInt(uint64(int64(a)%int64(b)), ki)}
		}
		return Value{n: a % b}
	case token.AND:
		return Value{n: a & b}
	case token.OR:
		return Value{n: a | b}
	case token.XOR:
		return Value{n: normInt(a^b, ki)}
	case token.AND_NOT:
		return Value{n: normInt(a&^b, ki)}
	case token.SHL:
		if in.ki2.signed && int64(b) < 0 {
			m.rtPanic("negative shift amount")
		}
		if b >= 64 {
			return Value{}
		}
		return Value{n: normInt(a<<b, ki)}
	case token.SHR:
		if in.ki2.signed && int64(b) < 0 {
			m.rtPanic("negative shift amount")
		}
		if ki.signed {
			if b > 63 {
				b = 63
			}
			return Value{n: uint64(int64(a) >> b)}
		}
		if b >= 64 {
			return Value{}
		}
		return Value{n: a >> b}
	case token.EQL:
		return vBool(a == b)
	case token.NEQ:
		return vBool(a != b)
	}
	if ki.signed {
		x, y := int64(a), int64(b)
		switch in.tok {
		case token.LSS:
			return vBool(x < y)
		case token.LEQ:
			return vBool(x <= y)
		case token.GTR:
			return vBool(x > y)
		case token.GEQ:
			return vBool(x >= y)
		}
	}
	switch in.tok {
	case token.LSS:
		return vBool(a < b)
	case token.LEQ:
		return vBool(a <= b)
	case token.GTR:
		return vBool(a > b)
	case token.GEQ:
		return vBool(a >= b)
	}
	panic(unsupported("intBin " + in.tok.String()))
}

func (m *Machine) binop(in *PInstr, x, y Value) Value {
	switch in.ki.k {
	case kInt:
		return m.symBin(in, x, y)
	case kBool:
		a, b := m.term(x, in.ki), m.term(y, in.ki)
		switch in.tok {
		case token.EQL:
			return m.boolV(m.tt.Eq(a, b))
		case token.NEQ:
			return m.boolV(m.tt.Not(m.tt.Eq(a, b)))
		case token.AND:
			return m.boolV(m.tt.And(a, b))
		case token.OR:
			return m.boolV(m.tt.Or(a, b))
		}
	case kFloat:
		return m.floatBin(in, x, y)
	case kString:
		switch in.tok {
		case token.ADD:
			return m.strCat(x, y)
		case token.EQL:
			return m.boolV(m.strEq(x, y))
		case token.NEQ:
			return m.boolV(m.tt.Not(m.strEq(x, y)))
		case token.LSS:
			return m.boolV(m.strLess(x, y, false))
		case token.LEQ:
			return m.boolV(m.strLess(x, y, true))
		case token.GTR:
			return m.boolV(m.strLess(y, x, false))
		case token.GEQ:
			return m.boolV(m.strLess(y, x, true))
		}
	default:
		switch in.tok {
		case token.EQL:
			return m.boolV(m.equal(x, y, in.typ))
		case token.NEQ:
			return m.boolV(m.tt.Not(m.equal(x, y, in.typ)))
		}
	}
	panic(unsupported("binop " + in.in.String()))
}

func (m *Machine) symBin(in *PInstr, x, y Value) Value {
	ki := in.ki
	tt := m.tt
	a := m.term(x, ki)
	if in.tok == token.SHL || in.tok == token.SHR {
		b := m.term(y, in.ki2)
		if in.ki2.signed && y.p != nil && b.hi >= 1<<(b.w-1) {
			if m.decide(tt.Cmp(OpSlt, b, tt.Const(b.w, 0))) {
				m.rtPanic("negative shift amount")
			}
		}
		// adapt width, saturating
		if b.w > a.w {
			big := tt.Cmp(OpUle, tt.Const(b.w, uint64(a.w)), b)
			b = tt.Ite(big, tt.Const(a.w, uint64(a.w)), tt.Extract(b, 0, a.w))
		} else if b.w < a.w {
			b = tt.Zext(b, a.w)
		}
		op := OpShl
		if in.tok == token.SHR {
			op = OpLshr
			if ki.signed {
				op = OpAshr
			}
		}
		return m.intV(tt.Bin(op, a, b), ki)
	}
	b := m.term(y, ki)
	switch in.tok {
	case token.ADD:
		return m.intV(tt.Bin(OpAdd, a, b), ki)
	case token.SUB:
		return m.intV(tt.Bin(OpSub, a, b), ki)
	case token.MUL:
		return m.intV(tt.Bin(OpMul, a, b), ki)
	case token.QUO, token.REM:
		if y.p != nil {
			if m.decide(tt.Eq(b, tt.Const(b.w, 0))) {
				m.rtPanic("integer divide by zero")
			}
		} else if y.n == 0 {
			m.rtPanic("integer divide by zero")
		}
		op := OpUdiv
		if in.tok == token.REM {
			op = OpUrem
		}
		if ki.signed {
			op = OpSdiv
			if in.tok == token.REM {
				op = OpSrem
			}
		}
		return m.intV(tt.Bin(op, a, b), ki)
	case token.AND:
		return m.intV(tt.Bin(OpBand, a, b), ki)
	case token.OR:
		return m.intV(tt.Bin(OpBor, a, b), ki)
	case token.XOR:
		return m.intV(tt.Bin(OpBxor, a, b), ki)
	case token.AND_NOT:
		return m.intV(tt.Bin(OpBand, a, tt.Bin(OpBxor, b, tt.Const(b.w, ^uint64(0)))), ki)
	case token.EQL:
		return m.boolV(tt.Eq(a, b))
	case token.NEQ:
		return m.boolV(tt.Not(tt.Eq(a, b)))
	}
	lt, le := OpUlt, OpUle
	if ki.signed {
		lt, le = OpSlt, OpSle
	}
	switch in.tok {
	case token.LSS:
		return m.boolV(tt.Cmp(lt, a, b))
	case token.LEQ:
		return m.boolV(tt.Cmp(le, a, b))
	case token.GTR:
		return m.boolV(tt.Cmp(lt, b, a))
	case token.GEQ:
		return m.boolV(tt.Cmp(le, b, a))
	}
	panic(unsupported("symBin " + in.tok.String()))
}

func (m *Machine) neg(in *PInstr, x Value) Value {
	if in.ki.k == kFloat {
		return m.floatFn(in.ki, func(a []float64) float64 { return -a[0] }, x)
	}
	if t, ok := x.p.(*Term); ok {
		return m.intV(m.tt.Bin(OpSub, m.tt.Const(t.w, 0), t), in.ki)
	}
	return Value{n: normInt(-x.n, in.ki)}
}

// floatFn applies f pointwise (rounding for float32).
func (m *Machine) floatFn(ki kinfo, f func(a []float64) float64, xs ...Value) Value {
	g := f
	if ki.w == 32 {
		g = func(a []float64) float64 { return float64(float32(f(a))) }
	}
	sym := false
	for _, x := range xs {
		if x.p != nil {
			if _, ok := x.p.(*TF); !ok {
				panic(unsupported(fmt.Sprintf("float %T", x.p)))
			}
			sym = true
		}
	}
	if !sym {
		a := make([]float64, len(xs))
		for i, x := range xs {
			a[i] = x.f64()
		}
		return vF(g(a))
	}
	r, ok := tfLift(xs, g)
	if !ok {
		panic(unsupported("float table too large"))
	}
	return r
}

func (m *Machine) floatBin(in *PInstr, x, y Value) Value {
	ki := in.ki
	w32 := ki.w == 32
	if x.p == nil && y.p == nil {
		a, b := x.f64(), y.f64()
		switch in.tok {
		case token.ADD:
			return vF(rnd(a+b, w32))
		case token.SUB:
			return vF(rnd(a-b, w32))
		case token.MUL:
			return vF(rnd(a*b, w32))
		case token.QUO:
			return vF(rnd(a/b, w32))
		case token.EQL:
			return vBool(a == b)
		case token.NEQ:
			return vBool(a != b)
		case token.LSS:
			return vBool(a < b)
		case token.LEQ:
			return vBool(a <= b)
		case token.GTR:
			return vBool(a > b)
		case token.GEQ:
			return vBool(a >= b)
		}
	}
	bo := func(b bool) float64 {
		if b {
			return 1
		}
		return 0
	}
	var f func(a []float64) float64
	isB := true
	switch in.tok {
	case token.ADD:
		f, isB = func(a []float64) float64 { return a[0] + a[1] }, false
	case token.SUB:
		f, isB = func(a []float64) float64 { return a[0] - a[1] }, false
	case token.MUL:
		f, isB = func(a []float64) float64 { return a[0] * a[1] }, false
	case token.QUO:
		f, isB = func(a []float64) float64 { return a[0] / a[1] }, false
	case token.EQL:
		f = func(a []float64) float64 { return bo(a[0] == a[1]) }
	case token.NEQ:
		f = func(a []float64) float64 { return bo(a[0] != a[1]) }
	case token.LSS:
		f = func(a []float64) float64 { return bo(a[0] < a[1]) }
	case token.LEQ:
		f = func(a []float64) float64 { return bo(a[0] <= a[1]) }
	case token.GTR:
		f = func(a []float64) float64 { return bo(a[0] > a[1]) }
	case token.GEQ:
		f = func(a []float64) float64 { return bo(a[0] >= a[1]) }
	}
	if isB {
		ki.w = 64
		return m.boolV(m.tt.tfBool(m.floatFn(ki, f, x, y)))
	}
	return m.floatFn(ki, f, x, y)
}

func rnd(f float64, w32 bool) float64 {
	if w32 {
		return float64(float32(f))
	}
	return f
}

// ---- strings

func (m *Machine) strCat(x, y Value) Value {
	if x.p == nil {
		return y
	}
	if y.p == nil {
		return x
	}
	a, ok := x.p.(string)
	b, ok2 := y.p.(string)
	if ok && ok2 {
		return Value{p: a + b}
	}
	l := append(append([]Value{}, strBytes(x)...), strBytes(y)...)
	return Value{p: &SymStr{b: l}}
}

func (m *Machine) byteTerm(v Value) *Term {
	if v.p == nil {
		return m.tt.Const(8, v.n)
	}
	return v.p.(*Term)
}

func (m *Machine) bytesEq(a, b []Value) *Term {
	if len(a) != len(b) {
		return m.tt.False
	}
	var ts []*Term
	for i := range a {
		if a[i].p == nil && b[i].p == nil {
			if byte(a[i].n) != byte(b[i].n) {
				return m.tt.False
			}
			continue
		}
		e := m.tt.Eq(m.byteTerm(a[i]), m.byteTerm(b[i]))
		if e == m.tt.False {
			return e
		}
		ts = append(ts, e)
	}
	return m.tt.And(ts...)
}

func (m *Machine) strEq(x, y Value) *Term {
	if strLen(x) != strLen(y) {
		return m.tt.False
	}
	a, ok := x.p.(string)
	b, ok2 := y.p.(string)
	if ok && ok2 {
		return m.tt.Bool(a == b)
	}
	return m.bytesEq(strBytes(x), strBytes(y))
}

func (m *Machine) bytesLess(a, b []Value, orEq bool) *Term {
	tt := m.tt
	var rec func(i int) *Term
	rec = func(i int) *Term {
		if i == len(a) || i == len(b) {
			if orEq {
				return tt.Bool(len(a) <= len(b))
			}
			return tt.Bool(len(a) < len(b))
		}
		x, y := m.byteTerm(a[i]), m.byteTerm(b[i])
		if x == y {
			return rec(i + 1)
		}
		return tt.Or(tt.Cmp(OpUlt, x, y), tt.And(tt.Eq(x, y), rec(i+1)))
	}
	return rec(0)
}

func (m *Machine) strLess(x, y Value, orEq bool) *Term {
	return m.bytesLess(strBytes(x), strBytes(y), orEq)
}

// ---- equality

func (m *Machine) equal(x, y Value, t types.Type) *Term {
	tt := m.tt
	switch u := t.Underlying().(type) {
	case *types.Basic:
		ki := kindOf(t)
		switch ki.k {
		case kBool, kInt:
			return tt.Eq(m.term(x, ki), m.term(y, ki))
		case kString:
			return m.strEq(x, y)
		case kFloat:
			r := m.floatFn(kinfo{kFloat, 64, true}, func(a []float64) float64 {
				if a[0] == a[1] {
					return 1
				}
				return 0
			}, x, y)
			return tt.tfBool(r)
		}
		return tt.Bool(ptrEq(x, y))
	case *types.Struct:
		a, b := x.p.(*Struct), y.p.(*Struct)
		var ts []*Term
		for i := range a.f {
			ts = append(ts, m.equal(a.f[i], b.f[i], u.Field(i).Type()))
		}
		return tt.And(ts...)
	case *types.Array:
		a, b := x.p.(*Struct), y.p.(*Struct)
		var ts []*Term
		for i := range a.f {
			ts = append(ts, m.equal(a.f[i], b.f[i], u.Elem()))
		}
		return tt.And(ts...)
	case *types.Interface:
		a, _ := x.p.(*Iface)
		b, _ := y.p.(*Iface)
		if a == nil || b == nil {
			return tt.Bool(a == nil && b == nil)
		}
		if a.t != b.t {
			return tt.False
		}
		switch a.t.ki.k {
		case kSlice, kMap, kFunc:
			m.rtPanic("comparing uncomparable type")
		}
		return m.equal(a.v, b.v, a.t.t)
	case *types.Slice, *types.Map, *types.Signature:
		// only comparable with nil
		return tt.Bool(x.p == nil && y.p == nil)
	default:
		return tt.Bool(ptrEq(x, y))
	}
}

func ptrEq(x, y Value) bool {
	if x.p == nil || y.p == nil {
		return x.p == nil && y.p == nil
	}
	if _, ok := x.p.(*SymPtr); ok {
		panic(unsupported("compare symbolic pointers"))
	}
	return x.p == y.p
}

// ---- convert

func (m *Machine) convert(in *PInstr, x Value) Value {
	s, d := in.ki, in.ki2
	switch {
	case s.k == kInt && d.k == kInt:
		return m.convInt(x, s, d)
	case s.k == kInt && d.k == kFloat:
		if t, ok := x.p.(*Term); ok {
			return m.intToTF(t, s, d)
		}
		var f float64
		if s.signed {
			f = float64(int64(x.n))
			if d.w == 32 {
				f = float64(float32(int64(x.n)))
			}
		} else {
			f = float64(x.n)
			if d.w == 32 {
				f = float64(float32(x.n))
			}
		}
		return vF(f)
	case s.k == kFloat && d.k == kFloat:
		if d.w == 32 && s.w == 64 {
			return m.floatFn(d, func(a []float64) float64 { return a[0] }, x)
		}
		return x
	case s.k == kFloat && d.k == kInt:
		if t, ok := x.p.(*TF); ok {
			return m.intV(m.tt.tfBV(t, d.w), d)
		}
		f := x.f64()
		if d.signed {
			return Value{n: normInt(uint64(int64(f)), d)}
		}
		return Value{n: normInt(uint64(f), d)}
	case s.k == kInt && d.k == kString:
		r := m.convInt(x, s, kinfo{kInt, 32, true})
		return mkStr(m.encodeRune(r))
	case s.k == kString && d.k == kSlice:
		el := kindOf(in.ti.t.Underlying().(*types.Slice).Elem())
		if el.w == 8 {
			b := strBytes(x)
			c := make([]Value, len(b))
			copy(c, b)
			return mkSlice(c)
		}
		return mkSlice(m.runesOf(strBytes(x)))
	case s.k == kSlice && d.k == kString:
		el := kindOf(in.typ.Underlying().(*types.Slice).Elem())
		if el.w == 8 {
			return mkStr(sliceOf(x))
		}
		var out []Value
		for _, r := range sliceOf(x) {
			out = append(out, m.encodeRune(r)...)
		}
		return mkStr(out)
	case d.k == kString && s.k == kString:
		return x
	case d.k == kPtr && s.k == kPtr:
		return x
	case s.k == d.k:
		return x
	}
	panic(unsupported("convert " + in.in.String()))
}

func (m *Machine) convInt(x Value, s, d kinfo) Value {
	if x.p == nil {
		return Value{n: normInt(x.n, d)}
	}
	t, ok := x.p.(*Term)
	if !ok {
		panic(unsupported(fmt.Sprintf("convInt %T", x.p)))
	}
	if d.w <= t.w {
		return m.intV(m.tt.Extract(t, 0, d.w), d)
	}
	if s.signed {
		return m.intV(m.tt.Sext(t, d.w), d)
	}
	return m.intV(m.tt.Zext(t, d.w), d)
}

// intToTF converts a small-range symbolic integer to a float: only terms
// over selection variables with small domains can be tabulated; others are
// concretised.
func (m *Machine) intToTF(t *Term, s, d kinfo) Value {
	vars := varsOf([]*Term{t})
	size := 1
	ok := true
	for _, v := range vars {
		if v.lo != 0 || v.hi > 256 {
			ok = false
			break
		}
		size *= domOf(v)
		if size > 4096 {
			ok = false
			break
		}
	}
	if !ok {
		c := m.concretize(t)
		if s.signed {
			return vF(rnd(float64(sx(c, t.w)), d.w == 32))
		}
		return vF(rnd(float64(c), d.w == 32))
	}
	sortTerms(vars)
	vals := make([]float64, size)
	env := map[*Term]uint64{}
	for i := 0; i < size; i++ {
		r := i
		for j := len(vars) - 1; j >= 0; j-- {
			env[vars[j]] = uint64(r % domOf(vars[j]))
			r /= domOf(vars[j])
		}
		m.tt.SetEnv(env)
		c := m.tt.Eval(t)
		if s.signed {
			vals[i] = rnd(float64(sx(c, t.w)), d.w == 32)
		} else {
			vals[i] = rnd(float64(c), d.w == 32)
		}
	}
	m.path.modelSet = false
	return tfNorm(vars, vals)
}

// ---- slices

func (m *Machine) slice(fr *frame, in *PInstr) Value {
	x := fr.get(in.a)
	idx := func(r ref, def int) int {
		if r == noRef {
			return def
		}
		return m.concInt(fr.get(r), kinfo{kInt, 64, true})
	}
	if in.ki.k == kString {
		n := strLen(x)
		lo := idx(in.b, 0)
		hi := idx(in.c, n)
		if lo < 0 || hi < lo || hi > n {
			m.rtPanic(fmt.Sprintf("slice bounds out of range [%d:%d] with length %d", lo, hi, n))
		}
		if s, ok := x.p.(string); ok {
			return vStr(s[lo:hi])
		}
		if x.p == nil {
			return x
		}
		return mkStr(x.p.(*SymStr).b[lo:hi])
	}
	var a []Value
	isNil := false
	switch p := x.p.(type) {
	case *Slice:
		a = p.a
	case *Value:
		s, ok := p.p.(*Struct)
		if !ok {
			panic(unsupported("slice of ptr"))
		}
		a = s.f
	case nil:
		if in.ki.k == kPtr {
			m.rtPanic("invalid memory address or nil pointer dereference")
		}
		isNil = true
	default:
		m.badPtr(x)
	}
	lo := idx(in.b, 0)
	hi := idx(in.c, len(a))
	mx := idx(in.d, cap(a))
	if lo < 0 || hi < lo || mx < hi || mx > cap(a) {
		m.rtPanic(fmt.Sprintf("slice bounds out of range [%d:%d:%d] with capacity %d", lo, hi, mx, cap(a)))
	}
	if isNil {
		return Value{}
	}
	return mkSlice(a[lo:hi:mx])
}

// ---- type assertions

func (m *Machine) implements(ti, iface *TypeInfo) bool {
	k := [2]int{ti.id, iface.id}
	if r, ok := m.assertC[k]; ok {
		return r
	}
	canonMu.Lock()
	r := types.Implements(ti.t, iface.t.Underlying().(*types.Interface))
	canonMu.Unlock()
	m.assertC[k] = r
	return r
}

func (m *Machine) typeAssert(in *PInstr, x Value) Value {
	ifv, _ := x.p.(*Iface)
	ok := false
	var res Value
	if in.ti.ki.k == kIface {
		if ifv != nil && m.implements(ifv.t, in.ti) {
			ok = true
			res = x
		}
	} else if ifv != nil && ifv.t == in.ti {
		ok = true
		res = ifv.v
	}
	if in.flag {
		if !ok {
			res = zeroOf(in.typ)
		}
		return tuple(res, vBool(ok))
	}
	if !ok {
		m.rtPanic("interface conversion")
	}
	return res
}

var _ = math.Pi
