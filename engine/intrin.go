package main

import (
	"fmt"
	"go/types"
	"math"
	"strings"
	"sync"
	"unicode"

	"golang.org/x/tools/go/ssa"
)

const vfPath = "vfh/vf"

var f64K = kinfo{kFloat, 64, true}
var intK = kinfo{kInt, 64, true}
var byteK = kinfo{kInt, 8, false}
var boolK = kinfo{k: kBool}

// ---- rune classes

var (
	classMu sync.Mutex
	classes = map[string][][2]uint64{}
)

func runeClass(name string, f func(r rune) bool) [][2]uint64 {
	classMu.Lock()
	defer classMu.Unlock()
	if c, ok := classes[name]; ok {
		return c
	}
	var rs [][2]uint64
	for r := rune(0); r <= 0x10FFFF; r++ {
		if f(r) {
			if n := len(rs); n > 0 && rs[n-1][1]+1 == uint64(r) {
				rs[n-1][1] = uint64(r)
			} else {
				rs = append(rs, [2]uint64{uint64(r), uint64(r)})
			}
		}
	}
	classes[name] = rs
	return rs
}

func classIntr(name string, f func(r rune) bool) intrinsic {
	return func(m *Machine, a []Value, c *callCtx) Value {
		if a[0].p == nil {
			return vBool(f(rune(int32(a[0].n))))
		}
		return m.boolV(m.tt.In(a[0].p.(*Term), runeClass(name, f)))
	}
}

type deltaGrp struct {
	d  uint64 // delta mod 2^32
	rs [][2]uint64
}

var deltas = map[string][]deltaGrp{}

func caseDeltas(name string, f func(r rune) rune) []deltaGrp {
	classMu.Lock()
	defer classMu.Unlock()
	if d, ok := deltas[name]; ok {
		return d
	}
	ix := map[uint64]int{}
	var gs []deltaGrp
	for r := rune(0); r <= 0x10FFFF; r++ {
		q := f(r)
		if q == r {
			continue
		}
		d := uint64(uint32(q - r))
		i, ok := ix[d]
		if !ok {
			i = len(gs)
			ix[d] = i
			gs = append(gs, deltaGrp{d: d})
		}
		g := &gs[i]
		if n := len(g.rs); n > 0 && g.rs[n-1][1]+1 == uint64(r) {
			g.rs[n-1][1] = uint64(r)
		} else {
			g.rs = append(g.rs, [2]uint64{uint64(r), uint64(r)})
		}
	}
	deltas[name] = gs
	return gs
}

func (m *Machine) caseMap(v Value, name string, f func(r rune) rune) Value {
	if v.p == nil {
		return Value{n: uint64(int64(f(rune(int32(v.n)))))}
	}
	t := v.p.(*Term)
	d := m.domOf(t)
	res := t
	for _, g := range caseDeltas(name, f) {
		var rs [][2]uint64
		for _, r := range g.rs {
			if r[0] <= d[1] && d[0] <= r[1] {
				rs = append(rs, [2]uint64{max(r[0], d[0]), min(r[1], d[1])})
			}
		}
		if len(rs) == 0 {
			continue
		}
		in := m.tt.In(t, rs)
		if k, ok := m.known(in); ok {
			if k {
				return m.intV(m.tt.Bin(OpAdd, t, m.tt.Const(32, g.d)), runeK)
			}
			continue
		}
		res = m.tt.Ite(in, m.tt.Bin(OpAdd, t, m.tt.Const(32, g.d)), res)
	}
	return m.intV(res, runeK)
}

func (m *Machine) mapCase(s Value, name string, f func(r rune) rune) Value {
	b := strBytes(s)
	if !s.isSymStr() {
		out := []rune{}
		str := goStr(s)
		for _, r := range str {
			out = append(out, f(r))
		}
		return vStr(string(out))
	}
	var out []Value
	for i := 0; i < len(b); {
		r, n := m.decodeRune(b[i:])
		if n == 1 && b[i].p != nil {
			t := m.byteTerm(b[i])
			if asc, ok := m.known(m.tt.Cmp(OpUle, t, m.tt.Const(8, 0x7F))); ok && asc {
				lo, hi, dd := uint64('A'), uint64('Z'), uint64(32)
				if name == "upper" {
					lo, hi, dd = 'a', 'z', 0xE0
				}
				in := m.tt.In(t, [][2]uint64{{lo, hi}})
				if k, ok := m.known(in); ok && !k {
					out = append(out, b[i])
				} else {
					out = append(out, m.intV(m.tt.Ite(in, m.tt.Bin(OpAdd, t, m.tt.Const(8, dd)), t), byteK))
				}
				i++
				continue
			}
		}
		q := m.caseMap(r, name, f)
		if q == r && !(n == 1 && r.n == runeErr) {
			out = append(out, b[i:i+n]...)
		} else {
			out = append(out, m.encodeRune(q)...)
		}
		i += n
	}
	return mkStr(out)
}

// ---- searching

func (m *Machine) idxFwd(s, sub []Value) int {
	for i := 0; i+len(sub) <= len(s); i++ {
		if m.decide(m.bytesEq(s[i:i+len(sub)], sub)) {
			return i
		}
	}
	return -1
}

func (m *Machine) idxBack(s, sub []Value) int {
	for i := len(s) - len(sub); i >= 0; i-- {
		if m.decide(m.bytesEq(s[i:i+len(sub)], sub)) {
			return i
		}
	}
	return -1
}

func (m *Machine) countByte(s []Value, c Value) int {
	n := 0
	for i := range s {
		if m.decide(m.tt.Eq(m.byteTerm(s[i]), m.byteTerm(c))) {
			n++
		}
	}
	return n
}

func anyBytes(v Value) []Value {
	switch p := v.p.(type) {
	case nil:
		return nil
	case *Slice:
		return p.a
	}
	return strBytes(v)
}

func iIndexF(m *Machine, a []Value, c *callCtx) Value {
	return vInt(m.idxFwd(anyBytes(a[0]), anyBytes(a[1])))
}
func iLastIndexF(m *Machine, a []Value, c *callCtx) Value {
	return vInt(m.idxBack(anyBytes(a[0]), anyBytes(a[1])))
}
func iIndexByteF(m *Machine, a []Value, c *callCtx) Value {
	return vInt(m.idxFwd(anyBytes(a[0]), []Value{a[1]}))
}
func iLastIndexByteF(m *Machine, a []Value, c *callCtx) Value {
	return vInt(m.idxBack(anyBytes(a[0]), []Value{a[1]}))
}
func iCountByteF(m *Machine, a []Value, c *callCtx) Value {
	return vInt(m.countByte(anyBytes(a[0]), a[1]))
}
func iBytesEqual(m *Machine, a []Value, c *callCtx) Value {
	return m.boolV(m.bytesEq(anyBytes(a[0]), anyBytes(a[1])))
}

func iNop0(m *Machine, a []Value, c *callCtx) Value { return Value{} }

func fl1(f func(x float64) float64) intrinsic {
	return func(m *Machine, a []Value, c *callCtx) Value {
		return m.floatFn(f64K, func(x []float64) float64 { return f(x[0]) }, a[0])
	}
}
func fl2(f func(x, y float64) float64) intrinsic {
	return func(m *Machine, a []Value, c *callCtx) Value {
		return m.floatFn(f64K, func(x []float64) float64 { return f(x[0], x[1]) }, a[0], a[1])
	}
}

func (m *Machine) globalVal(pkg, name string) Value {
	p := m.prog.ImportedPackage(pkg)
	if p == nil {
		panic(unsupported("package " + pkg))
	}
	g := p.Var(name)
	v := m.globalPtr(g)
	if c, ok := v.p.(*Value); ok {
		return *c
	}
	panic(unsupported("global " + pkg + "." + name))
}

func (m *Machine) newErr(msg string) Value {
	return Value{p: &Iface{t: m.rtErr, v: vStr(msg)}}
}

// atomics on a pointer cell
func atomLoad(m *Machine, a []Value, c *callCtx) Value {
	p, ok := a[0].p.(*Value)
	if !ok {
		m.badPtr(a[0])
	}
	return *p
}
func atomStore(m *Machine, a []Value, c *callCtx) Value {
	p, ok := a[0].p.(*Value)
	if !ok {
		m.badPtr(a[0])
	}
	// an atomic store does not race
	fz := m.path.frozen
	m.path.frozen = nil
	m.set(p, a[1], kinfo{k: kPtr})
	m.path.frozen = fz
	return Value{}
}

// lock takes a mutex (by -1) or one of its read locks (by 1). Nothing else
// runs that could release it, so that a lock that is held is a deadlock.
func (m *Machine) lock(mu Value, by int, wait bool) Value {
	m.noSpec()
	p, ok := mu.p.(*Value)
	if !ok {
		m.badPtr(mu)
	}
	held := m.path.locks[p]
	if held < 0 || held > 0 && by < 0 {
		if !wait {
			return vBool(false)
		}
		m.violation("hang", "a lock is taken that is held")
		panic(pathAbort{abViolation, "deadlock"})
	}
	if m.path.locks == nil {
		m.path.locks = map[*Value]int{}
	}
	m.path.locks[p] = held + by
	if by < 0 {
		m.path.excl++
	}
	return vBool(true)
}

func (m *Machine) unlock(mu Value, by int) Value {
	m.noSpec()
	p, ok := mu.p.(*Value)
	if !ok {
		m.badPtr(mu)
	}
	if held := m.path.locks[p]; held*by <= 0 {
		m.violation("panic", "a lock is released that is not held")
		panic(pathAbort{abViolation, "unlock"})
	}
	m.path.locks[p] -= by
	if by < 0 {
		m.path.excl--
	}
	return Value{}
}

func retInt(v Value, c *callCtx) kinfo {
	return kindOf(c.fn.Signature.Results().At(0).Type())
}

type openFile struct {
	data []Value
	pos  int
	dir  bool
}

var intrinsics map[string]intrinsic

func init() {
	I := map[string]intrinsic{}
	intrinsics = I
	cls := func(name string, f func(rune) bool) { I["unicode."+name] = classIntr(name, f) }
	cls("IsLetter", unicode.IsLetter)
	cls("IsNumber", unicode.IsNumber)
	cls("IsDigit", unicode.IsDigit)
	cls("IsSpace", unicode.IsSpace)
	cls("IsPunct", unicode.IsPunct)
	cls("IsSymbol", unicode.IsSymbol)
	cls("IsUpper", unicode.IsUpper)
	cls("IsLower", unicode.IsLower)
	cls("IsTitle", unicode.IsTitle)
	cls("IsControl", unicode.IsControl)
	cls("IsMark", unicode.IsMark)
	cls("IsPrint", unicode.IsPrint)
	cls("IsGraphic", unicode.IsGraphic)
	I["fmt.isSpace"] = classIntr("fmt.isSpace", fmtIsSpace)
	I["unicode.ToLower"] = func(m *Machine, a []Value, c *callCtx) Value { return m.caseMap(a[0], "lower", unicode.ToLower) }
	I["unicode.ToUpper"] = func(m *Machine, a []Value, c *callCtx) Value { return m.caseMap(a[0], "upper", unicode.ToUpper) }
	I["unicode.Is"] = func(m *Machine, a []Value, c *callCtx) Value {
		p, ok := a[0].p.(*Value)
		if !ok {
			m.badPtr(a[0])
		}
		rs := m.rangeTable(p)
		if a[1].p == nil {
			r := uint64(uint32(a[1].n))
			for _, x := range rs {
				if x[0] <= r && r <= x[1] {
					return vBool(true)
				}
			}
			return vBool(false)
		}
		return m.boolV(m.tt.In(a[1].p.(*Term), rs))
	}
	I["strings.ToLower"] = func(m *Machine, a []Value, c *callCtx) Value { return m.mapCase(a[0], "lower", unicode.ToLower) }
	I["strings.ToUpper"] = func(m *Machine, a []Value, c *callCtx) Value { return m.mapCase(a[0], "upper", unicode.ToUpper) }

	// utf8
	dec := func(m *Machine, a []Value, c *callCtx) Value {
		r, n := m.decodeRune(anyBytes(a[0]))
		return tuple(r, vInt(n))
	}
	I["unicode/utf8.DecodeRune"] = dec
	I["unicode/utf8.DecodeRuneInString"] = dec
	decLast := func(m *Machine, a []Value, c *callCtx) Value {
		b := anyBytes(a[0])
		if len(b) == 0 {
			return tuple(Value{n: runeErr}, Value{})
		}
		lim := max(0, len(b)-4)
		for s := len(b) - 1; s >= lim; s-- {
			// RuneStart(b[s])
			st := m.tt.Not(m.tt.In(m.byteTerm(b[s]), [][2]uint64{{0x80, 0xBF}}))
			if m.decide(st) {
				r, n := m.decodeRune(b[s:])
				if s+n != len(b) {
					return tuple(Value{n: runeErr}, vInt(1))
				}
				return tuple(r, vInt(n))
			}
		}
		return tuple(Value{n: runeErr}, vInt(1))
	}
	I["unicode/utf8.DecodeLastRune"] = decLast
	I["unicode/utf8.DecodeLastRuneInString"] = decLast
	cnt := func(m *Machine, a []Value, c *callCtx) Value {
		return vInt(len(m.runesOf(anyBytes(a[0]))))
	}
	I["unicode/utf8.RuneCount"] = cnt
	I["unicode/utf8.RuneCountInString"] = cnt
	I["unicode/utf8.AppendRune"] = func(m *Machine, a []Value, c *callCtx) Value {
		e := m.encodeRune(a[1])
		out := append(append([]Value{}, sliceOf(a[0])...), e...)
		return mkSlice(out)
	}
	I["unicode/utf8.EncodeRune"] = func(m *Machine, a []Value, c *callCtx) Value {
		e := m.encodeRune(a[1])
		d := sliceOf(a[0])
		if len(d) < len(e) {
			m.rtPanic("index out of range")
		}
		for i := range e {
			m.set(&d[i], e[i], byteK)
		}
		return vInt(len(e))
	}
	I["unicode/utf8.RuneLen"] = func(m *Machine, a []Value, c *callCtx) Value {
		if a[0].p == nil {
			return vInt(runeLen(rune(int32(a[0].n))))
		}
		t := a[0].p.(*Term)
		tt := m.tt
		k := func(n uint64) *Term { return tt.Const(64, n) }
		r := tt.Ite(tt.In(t, [][2]uint64{{0, 0x7F}}), k(1),
			tt.Ite(tt.In(t, [][2]uint64{{0, 0x7FF}}), k(2),
				tt.Ite(tt.In(t, [][2]uint64{{0x800, 0xD7FF}, {0xE000, 0xFFFF}}), k(3),
					tt.Ite(tt.In(t, [][2]uint64{{0x10000, 0x10FFFF}}), k(4), k(^uint64(0))))))
		return m.intV(r, intK)
	}
	valid := func(m *Machine, a []Value, c *callCtx) Value {
		b := anyBytes(a[0])
		for i := 0; i < len(b); {
			r, n := m.decodeRune(b[i:])
			if n == 1 && r.p == nil && r.n == runeErr {
				return vBool(false)
			}
			i += n
		}
		return vBool(true)
	}
	I["unicode/utf8.Valid"] = valid
	I["unicode/utf8.ValidString"] = valid
	full := func(m *Machine, a []Value, c *callCtx) Value {
		b := anyBytes(a[0])
		for i := range b {
			if b[i].p != nil {
				if len(b) >= 4 {
					return vBool(true)
				}
				break
			}
		}
		return Value{n: m.fullRune(b)}
	}
	I["unicode/utf8.FullRune"] = full
	I["unicode/utf8.FullRuneInString"] = full

	// searching
	for _, n := range []string{"strings.Index", "bytes.Index", "internal/stringslite.Index", "internal/bytealg.Index", "internal/bytealg.IndexString"} {
		I[n] = iIndexF
	}
	for _, n := range []string{"strings.LastIndex", "bytes.LastIndex"} {
		I[n] = iLastIndexF
	}
	for _, n := range []string{"strings.IndexByte", "bytes.IndexByte", "internal/stringslite.IndexByte", "internal/bytealg.IndexByte", "internal/bytealg.IndexByteString"} {
		I[n] = iIndexByteF
	}
	for _, n := range []string{"strings.LastIndexByte", "bytes.LastIndexByte", "internal/bytealg.LastIndexByte", "internal/bytealg.LastIndexByteString"} {
		I[n] = iLastIndexByteF
	}
	I["internal/bytealg.Count"] = iCountByteF
	I["internal/bytealg.CountString"] = iCountByteF
	I["bytes.Equal"] = iBytesEqual
	I["internal/bytealg.Equal"] = iBytesEqual
	cmp := func(m *Machine, a []Value, c *callCtx) Value {
		x, y := anyBytes(a[0]), anyBytes(a[1])
		lt := m.bytesLess(x, y, false)
		eq := m.bytesEq(x, y)
		if lt.isC() && eq.isC() {
			if eq.n == 1 {
				return vInt(0)
			}
			if lt.n == 1 {
				return vInt(-1)
			}
			return vInt(1)
		}
		k := func(n uint64) *Term { return m.tt.Const(64, n) }
		return m.intV(m.tt.Ite(eq, k(0), m.tt.Ite(lt, k(^uint64(0)), k(1))), intK)
	}
	I["internal/bytealg.Compare"] = cmp
	I["internal/bytealg.CompareString"] = cmp
	I["bytes.Compare"] = cmp
	I["strings.Compare"] = cmp
	I["internal/bytealg.MakeNoZero"] = func(m *Machine, a []Value, c *callCtx) Value {
		n := m.concInt(a[0], intK)
		if n < 0 || n > 1<<22 {
			panic(unsupported("MakeNoZero"))
		}
		return mkSlice(make([]Value, n))
	}
	I["strings.Clone"] = func(m *Machine, a []Value, c *callCtx) Value { return a[0] }
	I["internal/stringslite.Clone"] = I["strings.Clone"]
	I["(*strings.Builder).copyCheck"] = iNop0
	I["internal/abi.NoEscape"] = func(m *Machine, a []Value, c *callCtx) Value { return a[0] }
	I["internal/bytealg.init"] = iNop0

	// math
	for n, f := range map[string]func(float64) float64{"Log": math.Log, "log": math.Log, "archLog": math.Log, "Log2": math.Log2, "log2": math.Log2, "Log10": math.Log10, "Log1p": math.Log1p,
		"Sqrt": math.Sqrt, "Exp": math.Exp, "Abs": math.Abs, "Floor": math.Floor, "Ceil": math.Ceil, "Trunc": math.Trunc, "Round": math.Round} {
		I["math."+n] = fl1(f)
	}
	I["math.Pow"] = fl2(math.Pow)
	I["math.Max"] = fl2(math.Max)
	I["math.Min"] = fl2(math.Min)
	I["math.Modf"] = func(m *Machine, a []Value, c *callCtx) Value {
		return tuple(m.floatFn(f64K, func(x []float64) float64 { i, _ := math.Modf(x[0]); return i }, a[0]),
			m.floatFn(f64K, func(x []float64) float64 { _, f := math.Modf(x[0]); return f }, a[0]))
	}
	b01 := func(b bool) float64 {
		if b {
			return 1
		}
		return 0
	}
	I["math.IsNaN"] = func(m *Machine, a []Value, c *callCtx) Value {
		return m.boolV(m.tt.tfBool(m.floatFn(f64K, func(x []float64) float64 { return b01(math.IsNaN(x[0])) }, a[0])))
	}
	I["math.IsInf"] = func(m *Machine, a []Value, c *callCtx) Value {
		s := m.concInt(a[1], intK)
		return m.boolV(m.tt.tfBool(m.floatFn(f64K, func(x []float64) float64 { return b01(math.IsInf(x[0], s)) }, a[0])))
	}
	concF := func(v Value) float64 {
		if v.p != nil {
			panic(unsupported("float bits of symbolic float"))
		}
		return v.f64()
	}
	I["math.Float64bits"] = func(m *Machine, a []Value, c *callCtx) Value { return Value{n: math.Float64bits(concF(a[0]))} }
	I["math.Float32bits"] = func(m *Machine, a []Value, c *callCtx) Value {
		return Value{n: uint64(math.Float32bits(float32(concF(a[0]))))}
	}
	concN := func(m *Machine, v Value, w uint8) uint64 {
		if t, ok := v.p.(*Term); ok {
			return m.concretize(t)
		}
		return v.n
	}
	I["math.Float64frombits"] = func(m *Machine, a []Value, c *callCtx) Value {
		return vF(math.Float64frombits(concN(m, a[0], 64)))
	}
	I["math.Float32frombits"] = func(m *Machine, a []Value, c *callCtx) Value {
		return vF(float64(math.Float32frombits(uint32(concN(m, a[0], 32)))))
	}

	// formatting and logging
	for _, n := range []string{"Printf", "Println", "Print"} {
		I["log."+n] = iNop0
		I["fmt."+n] = func(m *Machine, a []Value, c *callCtx) Value { return tuple(Value{}, Value{}) }
	}

	// sync
	for _, n := range []string{"(*sync.Pool).Put", "sync.runtime_registerPoolCleanup", "runtime.KeepAlive", "runtime.SetFinalizer"} {
		I[n] = iNop0
	}
	I["(*sync.Mutex).Lock"] = func(m *Machine, a []Value, c *callCtx) Value { return m.lock(a[0], -1, true) }
	I["(*sync.Mutex).Unlock"] = func(m *Machine, a []Value, c *callCtx) Value { return m.unlock(a[0], -1) }
	I["(*sync.RWMutex).Lock"] = I["(*sync.Mutex).Lock"]
	I["(*sync.RWMutex).Unlock"] = I["(*sync.Mutex).Unlock"]
	I["(*sync.RWMutex).RLock"] = func(m *Machine, a []Value, c *callCtx) Value { return m.lock(a[0], 1, true) }
	I["(*sync.RWMutex).RUnlock"] = func(m *Machine, a []Value, c *callCtx) Value { return m.unlock(a[0], 1) }
	I["(*sync.Mutex).TryLock"] = func(m *Machine, a []Value, c *callCtx) Value { return m.lock(a[0], -1, false) }
	I["(*sync.RWMutex).TryLock"] = I["(*sync.Mutex).TryLock"]
	I["(*sync.RWMutex).TryRLock"] = func(m *Machine, a []Value, c *callCtx) Value { return m.lock(a[0], 1, false) }
	I["(*sync.Pool).Get"] = func(m *Machine, a []Value, c *callCtx) Value {
		p, ok := a[0].p.(*Value)
		if !ok {
			m.badPtr(a[0])
		}
		s := p.p.(*Struct)
		nf := s.f[len(s.f)-1] // New
		if nf.p == nil {
			return Value{}
		}
		return m.callVal(nf, nil)
	}
	for _, t := range []string{"Int32", "Int64", "Uint32", "Uint64", "Uintptr", "Pointer"} {
		t := t
		I["sync/atomic.Load"+t] = atomLoad
		I["sync/atomic.Store"+t] = atomStore
		I["sync/atomic.Swap"+t] = func(m *Machine, a []Value, c *callCtx) Value {
			old := atomLoad(m, a, c)
			atomStore(m, a, c)
			return old
		}
		I["sync/atomic.CompareAndSwap"+t] = func(m *Machine, a []Value, c *callCtx) Value {
			old := atomLoad(m, a, c)
			if old != a[1] {
				return vBool(false)
			}
			atomStore(m, []Value{a[0], a[2]}, c)
			return vBool(true)
		}
		I["sync/atomic.Add"+t] = func(m *Machine, a []Value, c *callCtx) Value {
			old := atomLoad(m, a, c)
			if old.p != nil || a[1].p != nil {
				panic(unsupported("atomic add symbolic"))
			}
			ki := retInt(old, c)
			nv := Value{n: normInt(old.n+a[1].n, ki)}
			atomStore(m, []Value{a[0], nv}, c)
			return nv
		}
	}

	// files
	I["os.Open"] = func(m *Machine, a []Value, c *callCtx) Value {
		m.noSpec()
		name := m.concStr(a[0])
		content, ok := m.path.files[name]
		ft := c.fn.Signature.Results().At(0).Type().(*types.Pointer)
		if !ok {
			return tuple(Value{}, m.pathError("open", name))
		}
		p := new(Value)
		*p = zeroOf(ft.Elem())
		if m.path.open == nil {
			m.path.open = map[*Value]*openFile{}
		}
		m.path.open[p] = &openFile{data: strBytes(content)}
		return tuple(Value{p: p}, Value{})
	}
	I["(*os.File).Read"] = func(m *Machine, a []Value, c *callCtx) Value {
		m.noSpec()
		p, _ := a[0].p.(*Value)
		f := m.path.open[p]
		if f == nil {
			return tuple(Value{}, m.newErr("bad file"))
		}
		d := sliceOf(a[1])
		if len(d) == 0 {
			return tuple(Value{}, Value{})
		}
		if f.pos >= len(f.data) {
			return tuple(Value{}, m.globalVal("io", "EOF"))
		}
		n := min(len(d), len(f.data)-f.pos)
		for i := 0; i < n; i++ {
			m.set(&d[i], f.data[f.pos+i], byteK)
		}
		f.pos += n
		return tuple(vInt(n), Value{})
	}
	I["(*os.File).Close"] = func(m *Machine, a []Value, c *callCtx) Value { return Value{} }
	readFile := func(m *Machine, a []Value, c *callCtx) Value {
		name := m.concStr(a[0])
		content, ok := m.path.files[name]
		if !ok {
			return tuple(Value{}, m.pathError("open", name))
		}
		return tuple(mkSlice(append([]Value{}, strBytes(content)...)), Value{})
	}
	I["os.ReadFile"] = readFile
	I["io/ioutil.ReadFile"] = readFile
	I["runtime.Caller"] = func(m *Machine, a []Value, c *callCtx) Value {
		return tuple(Value{n: 1}, vStr("/repo/dict_util.go"), vInt(1), vBool(true))
	}
	I["os.Getenv"] = func(m *Machine, a []Value, c *callCtx) Value { return Value{} }

	// regexp leaf: which runes does an instruction match
	I["(*regexp/syntax.Inst).MatchRune"] = func(m *Machine, a []Value, c *callCtx) Value {
		rs := m.instRunes(a[0])
		if a[1].p == nil {
			r := uint64(uint32(a[1].n))
			for _, x := range rs {
				if x[0] <= r && r <= x[1] {
					return vBool(true)
				}
			}
			return vBool(false)
		}
		return m.boolV(m.tt.In(a[1].p.(*Term), rs))
	}

	fmtIntrinsics(I)
	vfIntrinsics(I)
}

func runeLen(r rune) int {
	switch {
	case r < 0:
		return -1
	case r <= 0x7F:
		return 1
	case r <= 0x7FF:
		return 2
	case 0xD800 <= r && r <= 0xDFFF:
		return -1
	case r <= 0xFFFF:
		return 3
	case r <= 0x10FFFF:
		return 4
	}
	return -1
}

// copy of fmt's private classification, used only for symbolic runes; the
// table is fmt's own (checked against it natively by the self test).
func fmtIsSpace(r rune) bool {
	if r < 0 || r >= 1<<16 {
		return false
	}
	rx := uint16(r)
	for _, rng := range [][2]uint16{{0x0009, 0x000d}, {0x0020, 0x0020}, {0x0085, 0x0085}, {0x00a0, 0x00a0}, {0x1680, 0x1680}, {0x2000, 0x200a}, {0x2028, 0x2029}, {0x202f, 0x202f}, {0x205f, 0x205f}, {0x3000, 0x3000}} {
		if rx < rng[0] {
			return false
		}
		if rx <= rng[1] {
			return true
		}
	}
	return false
}

func (m *Machine) fullRune(b []Value) uint64 {
	if len(b) == 0 {
		return 0
	}
	tt := m.tt
	in := func(i int, rs ...[2]uint64) bool { return m.decide(tt.In(m.byteTerm(b[i]), rs)) }
	n := len(b)
	// needed length by first byte
	if in(0, [2]uint64{0, 0xC1}, [2]uint64{0xF5, 0xFF}) {
		return 1
	}
	if in(0, [2]uint64{0xC2, 0xDF}) {
		return b2u(n >= 2)
	}
	need := 4
	if in(0, [2]uint64{0xE0, 0xEF}) {
		need = 3
	}
	if n >= need {
		return 1
	}
	if n >= 2 {
		// an invalid second byte makes it an error of width 1 (full)
		ok := tt.Or(
			tt.And(tt.In(m.byteTerm(b[0]), [][2]uint64{{0xE0, 0xE0}}), tt.In(m.byteTerm(b[1]), [][2]uint64{{0xA0, 0xBF}})),
			tt.And(tt.In(m.byteTerm(b[0]), [][2]uint64{{0xED, 0xED}}), tt.In(m.byteTerm(b[1]), [][2]uint64{{0x80, 0x9F}})),
			tt.And(tt.In(m.byteTerm(b[0]), [][2]uint64{{0xF0, 0xF0}}), tt.In(m.byteTerm(b[1]), [][2]uint64{{0x90, 0xBF}})),
			tt.And(tt.In(m.byteTerm(b[0]), [][2]uint64{{0xF4, 0xF4}}), tt.In(m.byteTerm(b[1]), [][2]uint64{{0x80, 0x8F}})),
			tt.And(tt.In(m.byteTerm(b[0]), [][2]uint64{{0xE1, 0xEC}, {0xEE, 0xEF}, {0xF1, 0xF3}}), tt.In(m.byteTerm(b[1]), [][2]uint64{{0x80, 0xBF}})))
		if !m.decide(ok) {
			return 1
		}
	}
	if n >= 3 {
		if !in(2, [2]uint64{0x80, 0xBF}) {
			return 1
		}
	}
	return 0
}

func (m *Machine) concStr(v Value) string {
	if s, ok := v.p.(*SymStr); ok {
		b := make([]byte, len(s.b))
		for i := range b {
			b[i] = byte(s.b[i].n)
			if t, ok := s.b[i].p.(*Term); ok {
				b[i] = byte(m.concretize(t))
			}
		}
		return string(b)
	}
	return goStr(v)
}

func (m *Machine) pathError(op, name string) Value {
	p := m.prog.ImportedPackage("io/fs")
	t := p.Type("PathError").Type()
	c := new(Value)
	*c = zeroOf(t)
	s := c.p.(*Struct)
	s.f[0] = vStr(op)
	s.f[1] = vStr(name)
	s.f[2] = m.newErr("no such file or directory")
	return Value{p: &Iface{t: canonType(types.NewPointer(t)), v: Value{p: c}}}
}

// rangeTable reads a unicode.RangeTable value.
func (m *Machine) rangeTable(p *Value) [][2]uint64 {
	if rs, ok := m.rtCache[p]; ok {
		return rs
	}
	if rs, ok := m.path.rtCache[p]; ok {
		return rs
	}
	s := p.p.(*Struct)
	var rs [][2]uint64
	for k := 0; k < 2; k++ {
		for _, e := range sliceOf(s.f[k]) {
			f := e.p.(*Struct).f
			lo, hi, st := f[0].n, f[1].n, f[2].n
			if st == 1 {
				rs = append(rs, [2]uint64{lo, hi})
				continue
			}
			for x := lo; x <= hi; x += st {
				rs = append(rs, [2]uint64{x, x})
			}
		}
	}
	m.cacheRT(p, rs)
	return rs
}

// instRunes lists the runes a regexp/syntax instruction matches.
func (m *Machine) instRunes(v Value) [][2]uint64 {
	p, ok := v.p.(*Value)
	if !ok {
		m.badPtr(v)
	}
	if rs, ok := m.rtCache[p]; ok {
		return rs
	}
	if rs, ok := m.path.rtCache[p]; ok {
		return rs
	}
	f := p.p.(*Struct).f // Op, Out, Arg, Rune
	arg := f[2].n
	runes := sliceOf(f[3])
	var rs [][2]uint64
	if len(runes) == 1 {
		r0 := rune(int32(runes[0].n))
		rs = append(rs, [2]uint64{uint64(r0), uint64(r0)})
		if arg&1 != 0 { // FoldCase
			for r1 := unicode.SimpleFold(r0); r1 != r0; r1 = unicode.SimpleFold(r1) {
				rs = append(rs, [2]uint64{uint64(r1), uint64(r1)})
			}
			sortRanges(rs)
		}
	} else {
		for i := 0; i+1 < len(runes); i += 2 {
			rs = append(rs, [2]uint64{runes[i].n, runes[i+1].n})
		}
		sortRanges(rs)
	}
	m.cacheRT(p, rs)
	return rs
}

func (m *Machine) cacheRT(p *Value, rs [][2]uint64) {
	if m.logging {
		if m.path.rtCache == nil {
			m.path.rtCache = map[*Value][][2]uint64{}
		}
		m.path.rtCache[p] = rs
		return
	}
	m.rtCache[p] = rs
}

func sortRanges(rs [][2]uint64) {
	for i := 1; i < len(rs); i++ {
		for j := i; j > 0 && rs[j-1][0] > rs[j][0]; j-- {
			rs[j-1], rs[j] = rs[j], rs[j-1]
		}
	}
}

// ---- harness API

func (m *Machine) newInput(kind string, w uint8, lo, hi uint64) *Term {
	m.noSpec()
	v := m.newVar(w, lo, hi)
	m.path.inputs = append(m.path.inputs, input{kind: kind, t: v})
	return v
}

func vfIntrinsics(I map[string]intrinsic) {
	F := func(n string, f intrinsic) { I[vfPath+"."+n] = f }
	F("Byte", func(m *Machine, a []Value, c *callCtx) Value {
		return Value{p: m.newInput("byte", 8, 0, 255)}
	})
	F("Bytes", func(m *Machine, a []Value, c *callCtx) Value {
		n := m.concInt(a[0], intK)
		out := make([]Value, n)
		for i := range out {
			out[i].p = m.newInput("byte", 8, 0, 255)
		}
		return mkSlice(out)
	})
	F("Rune", func(m *Machine, a []Value, c *callCtx) Value {
		lo, hi := a[0].n, a[1].n
		if lo == hi {
			return Value{n: lo}
		}
		return Value{p: m.newInput("rune", 32, lo, hi)}
	})
	F("RuneOf", func(m *Machine, a []Value, c *callCtx) Value {
		rs := []rune(goStr(a[0]))
		var set [][2]uint64
		for _, r := range rs {
			set = append(set, [2]uint64{uint64(r), uint64(r)})
		}
		sortRanges(set)
		if len(rs) == 1 {
			return Value{n: uint64(rs[0])}
		}
		t := m.newInput("rune", 32, set[0][0], set[len(set)-1][1])
		in := m.tt.In(t, set)
		if in != m.tt.True {
			m.assume(Value{p: in})
		}
		return Value{p: t}
	})
	F("Int", func(m *Machine, a []Value, c *callCtx) Value {
		lo, hi := int64(a[0].n), int64(a[1].n)
		if lo == hi {
			return a[0]
		}
		if lo >= 0 {
			return Value{p: m.newInput("int", 64, uint64(lo), uint64(hi))}
		}
		t := m.newInput("int", 64, 0, ^uint64(0))
		c1 := m.tt.Cmp(OpSle, m.tt.Const(64, uint64(lo)), t)
		c2 := m.tt.Cmp(OpSle, t, m.tt.Const(64, uint64(hi)))
		m.assume(Value{p: m.tt.And(c1, c2)})
		return Value{p: t}
	})
	F("Bool", func(m *Machine, a []Value, c *callCtx) Value {
		t := m.newInput("bool", 1, 0, 1)
		return m.boolV(m.tt.Eq(t, m.tt.Const(1, 1)))
	})
	F("Pick", func(m *Machine, a []Value, c *callCtx) Value {
		n := m.concInt(a[0], intK)
		k := 0
		if n > 1 {
			k = m.pick(n)
		}
		m.path.inputs = append(m.path.inputs, input{kind: "pick", val: uint64(k)})
		return vInt(k)
	})
	F("SelF", func(m *Machine, a []Value, c *callCtx) Value {
		fs := sliceOf(a[0])
		menu := make([]float64, len(fs))
		for i := range fs {
			menu[i] = fs[i].f64()
		}
		if len(menu) == 1 {
			return vF(menu[0])
		}
		t := m.newInput("sel", 8, 0, uint64(len(menu)-1))
		m.path.inputs[len(m.path.inputs)-1].menu = menu
		return tfNorm([]*Term{t}, menu)
	})
	F("Fork", func(m *Machine, a []Value, c *callCtx) Value {
		if a[0].p == nil {
			return a[0]
		}
		return vBool(m.decide(a[0].p.(*Term)))
	})
	F("Conc", func(m *Machine, a []Value, c *callCtx) Value {
		return vInt(m.concInt(a[0], intK))
	})
	F("Assume", func(m *Machine, a []Value, c *callCtx) Value { m.assume(a[0]); return Value{} })
	F("Assert", func(m *Machine, a []Value, c *callCtx) Value { m.assertV(a[0], goStr(a[1])); return Value{} })
	ob := func(k string) intrinsic {
		return func(m *Machine, a []Value, c *callCtx) Value {
			m.noSpec()
			v := a[0]
			if k == "ss" {
				v = mkSlice(append([]Value{}, sliceOf(v)...))
			}
			m.path.obs = append(m.path.obs, obs{k, v})
			return Value{}
		}
	}
	F("ObsS", ob("s"))
	F("ObsI", ob("i"))
	F("ObsB", ob("b"))
	F("ObsF", ob("f"))
	F("ObsSS", ob("ss"))
	F("Reach", func(m *Machine, a []Value, c *callCtx) Value {
		m.noSpec()
		m.path.reached[goStr(a[0])] = true
		return Value{}
	})
	F("Bound", func(m *Machine, a []Value, c *callCtx) Value {
		i := 1
		if !m.thorough {
			i = 0
		}
		return a[i]
	})
	F("Known", func(m *Machine, a []Value, c *callCtx) Value {
		m.noSpec()
		m.path.known = append(m.path.known, goStr(a[0]))
		return Value{}
	})
	F("Shared", func(m *Machine, a []Value, c *callCtx) Value {
		m.noSpec()
		m.freeze(sliceOf(a[1]))
		m.callVal(a[0], nil)
		m.path.frozen, m.path.frozenM = nil, nil
		return Value{}
	})
	F("Fresh", func(m *Machine, a []Value, c *callCtx) Value {
		m.noSpec()
		// every map that f changes must be logged
		own, mark, no := m.path.ownMap, len(m.undo), len(m.path.obs)
		m.path.ownMap = map[*Map]bool{}
		r := m.callVal(a[0], nil)
		out := mkSlice(append([]Value{}, sliceOf(r)...))
		m.rollback(mark)
		m.path.ownMap, m.path.obs = own, m.path.obs[:no]
		return out
	})
	F("SetString", func(m *Machine, a []Value, c *callCtx) Value {
		m.noSpec()
		name := goStr(a[1])
		i := strings.LastIndex(name, ".")
		pkg := m.prog.ImportedPackage(name[:i])
		if pkg == nil || pkg.Var(name[i+1:]) == nil {
			panic(unsupported("no variable " + name))
		}
		m.set(m.globalPtr(pkg.Var(name[i+1:])).p.(*Value), a[2], kinfo{})
		return Value{}
	})
	F("AnyLen", func(m *Machine, a []Value, c *callCtx) Value {
		return vInt(len(sliceOf(a[0].p.(*Iface).v)))
	})
	F("AnySwap", func(m *Machine, a []Value, c *callCtx) Value {
		x := a[0].p.(*Iface)
		s := sliceOf(x.v)
		i, j := m.concInt(a[1], kinfo{kInt, 64, true}), m.concInt(a[2], kinfo{kInt, 64, true})
		et := x.t.t.Underlying().(*types.Slice).Elem()
		ki := kindOf(et)
		p, q := copyVal(s[i]), copyVal(s[j])
		if ki.k != kAgg {
			p, q = s[i], s[j]
		}
		m.storeInto(&s[i], q, ki, et)
		m.storeInto(&s[j], p, ki, et)
		return Value{}
	})
	F("MapOrder", func(m *Machine, a []Value, c *callCtx) Value {
		m.noSpec()
		m.path.mapOrder = a[0].n != 0
		m.path.mapPicks = 0
		if m.path.mapOrder {
			m.path.mapRev = m.pick(2) == 1
		}
		return Value{}
	})
	F("File", func(m *Machine, a []Value, c *callCtx) Value {
		m.noSpec()
		m.path.files[goStr(a[0])] = a[1]
		return Value{}
	})
	F("Dir", func(m *Machine, a []Value, c *callCtx) Value { return vStr("/vfdir") })
	F("Unsupported", func(m *Machine, a []Value, c *callCtx) Value { panic(unsupported(goStr(a[0]))) })
	F("Native", func(m *Machine, a []Value, c *callCtx) Value { return vBool(false) })
	F("Try", func(m *Machine, a []Value, c *callCtx) Value {
		m.noSpec()
		depth, sp, np := m.depth, m.sp, len(m.panicking)
		var out Value
		func() {
			ok := false
			defer func() {
				if ok {
					return
				}
				r := recover()
				tp, is := r.(targetPanic)
				if !is {
					panic(r)
				}
				m.depth, m.sp = depth, sp
				m.panicking = m.panicking[:np]
				out = vStr("panic: " + m.panicMsg(tp))
			}()
			m.callVal(a[0], nil)
			ok = true
		}()
		return out
	})
}

// freeze marks everything reachable from the roots and from the package
// variables of the code under test.
func (m *Machine) freeze(roots []Value) {
	fz := map[*Value]struct{}{}
	fm := map[*Map]bool{}
	var rec func(v Value)
	cell := func(p *Value) {
		if _, ok := fz[p]; ok {
			return
		}
		fz[p] = struct{}{}
		rec(*p)
	}
	seenS := map[*Struct]bool{}
	rec = func(v Value) {
		switch p := v.p.(type) {
		case *Value:
			cell(p)
		case *Struct:
			if seenS[p] {
				return
			}
			seenS[p] = true
			for i := range p.f {
				cell(&p.f[i])
			}
		case *Slice:
			a := p.a[:cap(p.a)]
			for i := range a {
				cell(&a[i])
			}
		case *Iface:
			rec(p.v)
		case *Closure:
			for _, e := range p.env {
				rec(e)
			}
		case *Map:
			if fm[p] {
				return
			}
			fm[p] = true
			for i := range p.ents {
				rec(p.ents[i].k)
				rec(p.ents[i].v)
			}
		}
	}
	for _, r := range roots {
		rec(r)
	}
	for g, c := range m.globals {
		switch p := g.Pkg.Pkg.Path(); {
		case isRepoPkg(p):
			cell(c)
		case p == "vfh/cedarmodel":
			// the tries there are, but new ones may be made
			if mp, ok := c.p.(*Map); ok {
				for i := range mp.ents {
					rec(mp.ents[i].v)
				}
			}
		}
	}
	m.path.frozen, m.path.frozenM = fz, fm
}

var _ = fmt.Sprint
var _ *ssa.Function
