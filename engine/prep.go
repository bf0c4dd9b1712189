package main

import (
	"go/constant"
	"go/token"
	"go/types"
	"math"
	"sort"

	"golang.org/x/tools/go/ssa"
)

type ref int32

type opc uint8

const (
	iNop opc = iota
	iAlloc
	iAllocLocal
	iBinOp
	iUnNot
	iUnNeg
	iUnCompl
	iLoad
	iCall
	iChangeIface
	iChangeType
	iConvert
	iSliceToArr
	iDefer
	iExtract
	iField
	iFieldAddr
	iIf
	iIndex
	iIndexAddr
	iJump
	iLookup
	iMakeClosure
	iMakeIface
	iMakeMap
	iMakeSlice
	iMapUpdate
	iNext
	iPanic
	iRange
	iReturn
	iRunDefers
	iSlice
	iStore
	iTypeAssert
	iUnsupported
)

type PInstr struct {
	op      opc
	dst     ref
	a, b, c ref
	d       ref
	has     uint8
	args    []ref
	ki      kinfo // operand kind
	ki2     kinfo
	tok     token.Token
	n       int
	typ     types.Type
	ti      *TypeInfo
	in      ssa.Instruction
	fn      *ssa.Function // static callee
	intr    intrinsic
	bi      string // builtin name
	meth    *types.Func
	flag    bool
	fast    bool
}

type PPhi struct {
	dst   ref
	edges []ref
	ki    kinfo
}

type PBlock struct {
	idx    int
	phis   []PPhi
	ins    []PInstr
	succs  [2]*PBlock
	sb     *ssa.BasicBlock
	ipdom  *PBlock
	hasPD  bool
	merge  bool
	live   []liveReg // registers set within the region that the join may read
	predIx map[*PBlock]int
}

type liveReg struct {
	r  ref
	ki kinfo
}

type PFunc struct {
	fn       *ssa.Function
	name     string
	blocks   []*PBlock
	recover  *PBlock
	nregs    int
	nparams  int
	consts   []Value
	hasDefer bool
	intr     intrinsic
	redirect *ssa.Function
	mergeRet bool
	skipInit bool
	nobody   bool
	calls    int64
	repo     bool
}

type uninitGlobal struct{ g *ssa.Global }

const noRef ref = math.MinInt32

func (m *Machine) prep(fn *ssa.Function) *PFunc {
	if pf, ok := m.pfs[fn]; ok {
		return pf
	}
	pf := &PFunc{fn: fn, name: fn.String()}
	m.pfs[fn] = pf
	name := pf.name
	if o := fn.Origin(); o != nil {
		name = o.String()
	}
	if in, ok := intrinsics[name]; ok {
		pf.intr = in
		return pf
	}
	if m.redirects != nil {
		if r, ok := m.redirects[name]; ok {
			pf.redirect = r
			return pf
		}
	}
	if fn.Synthetic == "package initializer" && m.skipPkg(fn.Pkg.Pkg.Path()) {
		pf.skipInit = true
		return pf
	}
	if fn.Synthetic == "package initializer" {
		m.inited[fn.Pkg] = true
	}
	if fn.Blocks == nil && fn.Pkg != nil {
		fn.Pkg.Build()
	}
	if fn.Blocks == nil {
		if o := fn.Origin(); o != nil && o.Pkg != nil {
			o.Pkg.Build()
		}
	}
	if fn.Blocks == nil {
		pf.nobody = true
		return pf
	}
	if fn.Pkg != nil {
		pf.repo = isRepoPkg(fn.Pkg.Pkg.Path())
	}
	m.prepBody(pf)
	return pf
}

func (m *Machine) prepBody(pf *PFunc) {
	fn := pf.fn
	slots := map[ssa.Value]ref{}
	n := 0
	add := func(v ssa.Value) {
		slots[v] = ref(n)
		n++
	}
	for _, p := range fn.Params {
		add(p)
	}
	for _, p := range fn.FreeVars {
		add(p)
	}
	pf.nparams = len(fn.Params)
	for _, b := range fn.Blocks {
		for _, in := range b.Instrs {
			if v, ok := in.(ssa.Value); ok {
				add(v)
			}
			if _, ok := in.(*ssa.Defer); ok {
				pf.hasDefer = true
			}
		}
	}
	pf.nregs = n
	constIx := map[ssa.Value]ref{}
	r := func(v ssa.Value) ref {
		if v == nil {
			return noRef
		}
		if s, ok := slots[v]; ok {
			return s
		}
		if c, ok := constIx[v]; ok {
			return c
		}
		var val Value
		switch x := v.(type) {
		case *ssa.Const:
			val = m.constVal(x)
		case *ssa.Global:
			val = m.globalPtr(x)
		case *ssa.Function:
			val = Value{p: &Closure{fn: x}}
		case *ssa.Builtin:
			val = Value{p: &Builtin{x.Name()}}
		default:
			panic(unsupported("ref " + v.String()))
		}
		pf.consts = append(pf.consts, val)
		ix := ref(-len(pf.consts))
		constIx[v] = ix
		return ix
	}
	pf.blocks = make([]*PBlock, len(fn.Blocks))
	for i := range pf.blocks {
		pf.blocks[i] = &PBlock{idx: i, sb: fn.Blocks[i]}
	}
	for i, b := range fn.Blocks {
		pb := pf.blocks[i]
		for j, s := range b.Succs {
			if j < 2 {
				pb.succs[j] = pf.blocks[s.Index]
			}
		}
		pb.predIx = map[*PBlock]int{}
		for j, p := range b.Preds {
			if _, dup := pb.predIx[pf.blocks[p.Index]]; !dup {
				pb.predIx[pf.blocks[p.Index]] = j
			}
		}
		for _, in := range b.Instrs {
			if phi, ok := in.(*ssa.Phi); ok {
				p := PPhi{dst: slots[phi], ki: kindOf(phi.Type())}
				for _, e := range phi.Edges {
					p.edges = append(p.edges, r(e))
				}
				pb.phis = append(pb.phis, p)
				continue
			}
			var pi PInstr
			pi.in = in
			pi.dst = noRef
			if v, ok := in.(ssa.Value); ok {
				pi.dst = slots[v]
			}
			m.prepInstr(&pi, in, r)
			if pi.op != iNop {
				pb.ins = append(pb.ins, pi)
			}
		}
	}
	if fn.Recover != nil {
		pf.recover = pf.blocks[fn.Recover.Index]
	}
	computePD(pf)
}

func (m *Machine) prepInstr(pi *PInstr, in ssa.Instruction, r func(ssa.Value) ref) {
	switch x := in.(type) {
	case *ssa.DebugRef:
		pi.op = iNop
	case *ssa.Alloc:
		pi.op = iAlloc
		pi.typ = x.Type().Underlying().(*types.Pointer).Elem()
		pi.flag = kindOf(pi.typ).k != kAgg
	case *ssa.BinOp:
		pi.op = iBinOp
		pi.tok = x.Op
		pi.a, pi.b = r(x.X), r(x.Y)
		pi.ki = kindOf(x.X.Type())
		pi.ki2 = kindOf(x.Y.Type())
		pi.typ = x.X.Type()
		if pi.ki.k == kInt {
			pi.fast = true
		}
	case *ssa.UnOp:
		pi.a = r(x.X)
		pi.ki = kindOf(x.X.Type())
		switch x.Op {
		case token.NOT:
			pi.op = iUnNot
		case token.SUB:
			pi.op = iUnNeg
		case token.XOR:
			pi.op = iUnCompl
		case token.MUL:
			pi.op = iLoad
			pi.ki = kindOf(x.Type())
			pi.typ = x.Type()
		default:
			pi.op = iUnsupported
		}
	case *ssa.Call:
		pi.op = iCall
		pi.typ = x.Type()
		m.prepCall(pi, &x.Call, r)
	case *ssa.Defer:
		pi.op = iDefer
		m.prepCall(pi, &x.Call, r)
	case *ssa.ChangeInterface:
		pi.op = iChangeIface
		pi.a = r(x.X)
	case *ssa.ChangeType:
		pi.op = iChangeType
		pi.a = r(x.X)
	case *ssa.Convert:
		pi.op = iConvert
		pi.a = r(x.X)
		pi.ki = kindOf(x.X.Type())
		pi.ki2 = kindOf(x.Type())
		pi.typ = x.X.Type()
		pi.ti = canonType(x.Type())
	case *ssa.MultiConvert:
		pi.op = iConvert
		pi.a = r(x.X)
		pi.ki = kindOf(x.X.Type())
		pi.ki2 = kindOf(x.Type())
		pi.typ = x.X.Type()
		pi.ti = canonType(x.Type())
	case *ssa.SliceToArrayPointer:
		pi.op = iSliceToArr
	case *ssa.Extract:
		pi.op = iExtract
		pi.a = r(x.Tuple)
		pi.n = x.Index
	case *ssa.Field:
		pi.op = iField
		pi.a = r(x.X)
		pi.n = x.Field
	case *ssa.FieldAddr:
		pi.op = iFieldAddr
		pi.a = r(x.X)
		pi.n = x.Field
	case *ssa.If:
		pi.op = iIf
		pi.a = r(x.Cond)
	case *ssa.Index:
		pi.op = iIndex
		pi.a, pi.b = r(x.X), r(x.Index)
		pi.ki = kindOf(x.X.Type())
		pi.ki2 = kindOf(x.Index.Type())
		pi.typ = x.Type()
	case *ssa.IndexAddr:
		pi.op = iIndexAddr
		pi.a, pi.b = r(x.X), r(x.Index)
		pi.ki = kindOf(x.X.Type())
		pi.ki2 = kindOf(x.Index.Type())
	case *ssa.Jump:
		pi.op = iJump
	case *ssa.Lookup:
		pi.op = iLookup
		pi.a, pi.b = r(x.X), r(x.Index)
		pi.ki = kindOf(x.X.Type())
		pi.ki2 = kindOf(x.Index.Type())
		pi.flag = x.CommaOk
		if mt, ok := x.X.Type().Underlying().(*types.Map); ok {
			pi.typ = mt.Elem()
			pi.ti = canonType(mt)
		}
		if x.CommaOk {
			// only the ok component used?
			pi.fast = true
			for _, rf := range *x.Referrers() {
				if e, ok := rf.(*ssa.Extract); ok && e.Index == 0 && len(*e.Referrers()) > 0 {
					pi.fast = false
				}
			}
		}
	case *ssa.MakeClosure:
		pi.op = iMakeClosure
		pi.fn = x.Fn.(*ssa.Function)
		for _, b := range x.Bindings {
			pi.args = append(pi.args, r(b))
		}
	case *ssa.MakeInterface:
		pi.op = iMakeIface
		pi.a = r(x.X)
		pi.ti = canonType(x.X.Type())
	case *ssa.MakeMap:
		pi.op = iMakeMap
		pi.ti = canonType(x.Type())
	case *ssa.MakeSlice:
		pi.op = iMakeSlice
		pi.a, pi.b = r(x.Len), r(x.Cap)
		pi.typ = x.Type().Underlying().(*types.Slice).Elem()
		pi.flag = kindOf(pi.typ).k != kAgg
		pi.ki = kindOf(x.Len.Type())
		pi.ki2 = kindOf(x.Cap.Type())
	case *ssa.MapUpdate:
		pi.op = iMapUpdate
		pi.a, pi.b, pi.c = r(x.Map), r(x.Key), r(x.Value)
		pi.ti = canonType(x.Map.Type())
	case *ssa.Next:
		pi.op = iNext
		pi.a = r(x.Iter)
		pi.flag = x.IsString
	case *ssa.Panic:
		pi.op = iPanic
		pi.a = r(x.X)
	case *ssa.Range:
		pi.op = iRange
		pi.a = r(x.X)
		pi.ki = kindOf(x.X.Type())
	case *ssa.Return:
		pi.op = iReturn
		for _, v := range x.Results {
			pi.args = append(pi.args, r(v))
		}
	case *ssa.RunDefers:
		pi.op = iRunDefers
	case *ssa.Slice:
		pi.op = iSlice
		pi.a, pi.b, pi.c, pi.d = r(x.X), r(x.Low), r(x.High), r(x.Max)
		pi.ki = kindOf(x.X.Type())
	case *ssa.Store:
		pi.op = iStore
		pi.a, pi.b = r(x.Addr), r(x.Val)
		pi.ki = kindOf(x.Val.Type())
		pi.typ = x.Val.Type()
	case *ssa.TypeAssert:
		pi.op = iTypeAssert
		pi.a = r(x.X)
		pi.ti = canonType(x.AssertedType)
		pi.flag = x.CommaOk
		pi.typ = x.AssertedType
	default:
		pi.op = iUnsupported
	}
}

func (m *Machine) prepCall(pi *PInstr, c *ssa.CallCommon, r func(ssa.Value) ref) {
	if c.IsInvoke() {
		pi.a = r(c.Value)
		pi.meth = c.Method
	} else {
		switch v := c.Value.(type) {
		case *ssa.Builtin:
			pi.bi = v.Name()
			if len(c.Args) > 0 {
				pi.ki = kindOf(c.Args[0].Type())
				pi.typ = c.Args[0].Type()
			}
			if len(c.Args) > 1 {
				pi.ki2 = kindOf(c.Args[1].Type())
			}
		case *ssa.Function:
			pi.fn = v
		default:
			pi.a = r(c.Value)
		}
	}
	for _, a := range c.Args {
		pi.args = append(pi.args, r(a))
	}
}

func (m *Machine) constVal(c *ssa.Const) Value {
	if c.Value == nil {
		return zeroOf(c.Type())
	}
	t := c.Type().Underlying()
	if tp, ok := t.(*types.TypeParam); ok {
		_ = tp
		panic(unsupported("type param const"))
	}
	ki := kindOf(c.Type())
	switch ki.k {
	case kBool:
		return vBool(constant.BoolVal(c.Value))
	case kInt:
		v := constant.ToInt(c.Value)
		if i, ok := constant.Int64Val(v); ok {
			return Value{n: normInt(uint64(i), ki)}
		}
		if u, ok := constant.Uint64Val(v); ok {
			return Value{n: u}
		}
	case kFloat:
		f, _ := constant.Float64Val(constant.ToFloat(c.Value))
		if ki.w == 32 {
			f = float64(float32(f))
		}
		return vF(f)
	case kString:
		if c.Value.Kind() == constant.String {
			return vStr(constant.StringVal(c.Value))
		}
		i, _ := constant.Int64Val(c.Value)
		return vStr(string(rune(i)))
	}
	if ki.k == kOther {
		return Value{p: badConst{}}
	}
	panic(unsupported("const " + c.String()))
}

type badConst struct{}

func (m *Machine) globalPtr(g *ssa.Global) Value {
	if p, ok := m.globals[g]; ok {
		return Value{p: p}
	}
	if m.skipPkg(g.Pkg.Pkg.Path()) && !okUninit[g.Pkg.Pkg.Path()+"."+g.Name()] {
		return Value{p: uninitGlobal{g}}
	}
	c := new(Value)
	*c = zeroOf(g.Type().Underlying().(*types.Pointer).Elem())
	m.globals[g] = c
	return Value{p: c}
}

// computePD computes immediate postdominators (panic exits ignored) and
// marks branches whose region may be merged.
func computePD(pf *PFunc) {
	n := len(pf.blocks)
	exit := n
	words := (n + 1 + 63) / 64
	type bs []uint64
	full := func() bs {
		b := make(bs, words)
		for i := range b {
			b[i] = ^uint64(0)
		}
		return b
	}
	pd := make([]bs, n+1)
	succs := make([][]int, n)
	hasExit := make([]bool, n)
	for i, b := range pf.blocks {
		for _, s := range b.sb.Succs {
			succs[i] = append(succs[i], s.Index)
		}
		if len(b.sb.Succs) == 0 {
			if len(b.ins) > 0 && b.ins[len(b.ins)-1].op == iReturn {
				succs[i] = []int{exit}
				hasExit[i] = true
			}
		}
		pd[i] = full()
	}
	pd[exit] = make(bs, words)
	pd[exit][exit/64] |= 1 << (exit % 64)
	for changed := true; changed; {
		changed = false
		for i := n - 1; i >= 0; i-- {
			nb := full()
			if len(succs[i]) == 0 {
				continue
			}
			for _, s := range succs[i] {
				for k := range nb {
					nb[k] &= pd[s][k]
				}
			}
			nb[i/64] |= 1 << (i % 64)
			for k := range nb {
				if nb[k] != pd[i][k] {
					pd[i] = nb
					changed = true
					break
				}
			}
		}
	}
	has := func(b bs, i int) bool { return b[i/64]>>(i%64)&1 == 1 }
	count := func(b bs) int {
		c := 0
		for i := 0; i <= n; i++ {
			if has(b, i) {
				c++
			}
		}
		return c
	}
	cnt := make([]int, n+1)
	for i := 0; i <= n; i++ {
		cnt[i] = count(pd[i])
	}
	for i, b := range pf.blocks {
		if b.succs[1] == nil {
			continue
		}
		// ipdom: the strict postdominator with the largest own set
		best, bc := -1, -1
		for j := 0; j <= n; j++ {
			if j != i && has(pd[i], j) && cnt[j] > bc && cnt[j] < cnt[i]+1 {
				best, bc = j, cnt[j]
			}
		}
		if best < 0 {
			continue
		}
		b.hasPD = true
		if best < n {
			b.ipdom = pf.blocks[best]
		} else if pf.hasDefer {
			b.hasPD = false
			continue
		}
		// region scan
		seen := map[int]bool{}
		okR := true
		var stack []int
		for _, s := range b.sb.Succs {
			stack = append(stack, s.Index)
		}
		for len(stack) > 0 && okR {
			k := stack[len(stack)-1]
			stack = stack[:len(stack)-1]
			if k == best || seen[k] {
				continue
			}
			seen[k] = true
			if len(seen) > 30 {
				okR = false
				break
			}
			for q := range pf.blocks[k].ins {
				in := &pf.blocks[k].ins[q]
				switch in.op {
				case iDefer, iRunDefers, iMapUpdate, iUnsupported:
					okR = false
				case iCall:
					if in.fn != nil && in.fn.Pkg != nil && in.fn.Pkg.Pkg.Path() == vfPath {
						okR = false
					}
				}
			}
			for _, s := range pf.blocks[k].sb.Succs {
				stack = append(stack, s.Index)
			}
		}
		b.merge = okR
		if okR && best < n {
			for k := range seen {
				kb := pf.blocks[k]
				if !kb.sb.Dominates(b.ipdom.sb) {
					continue
				}
				for q := range kb.phis {
					b.live = append(b.live, liveReg{kb.phis[q].dst, kb.phis[q].ki})
				}
				for q := range kb.ins {
					in := &kb.ins[q]
					if v, ok := in.in.(ssa.Value); ok && in.dst != noRef {
						b.live = append(b.live, liveReg{in.dst, kindOf(v.Type())})
					}
				}
			}
			sort.Slice(b.live, func(i, j int) bool { return b.live[i].r < b.live[j].r })
		}
	}
}
