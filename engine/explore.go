package main

import (
	"fmt"
	"math"
	"os"
	"sort"
	"strings"
	"sync"
	"time"

	"golang.org/x/tools/go/ssa"
)

type dec struct {
	v      uint64 // chosen value (bool: 0/1, pick: index, concretize: candidate)
	taken  bool
	forced bool
	h      uint64 // of what was decided, to notice a replay that goes astray
}

type input struct {
	kind string // byte, rune, int, bool, sel, pick
	t    *Term
	val  uint64
	menu []float64
}

type obs struct {
	kind string
	v    Value
}

type pathState struct {
	prefix   []dec
	pos      int
	trace    []dec
	pc       []*Term
	lits     map[*Term]bool
	dom      map[*Term][2]uint64
	vars     []*Term
	model    map[string]uint64
	hasModel bool
	modelSet bool
	inputs   []input
	obs      []obs
	freshC   map[*Value]bool
	ownMap   map[*Map]bool
	frozen   map[*Value]struct{}
	frozenM  map[*Map]bool
	frozenAt string
	locks    map[*Value]int // -1: held, n: held by n readers
	excl     int            // mutexes held
	mapOrder bool
	mapRev   bool // direction of loops over large maps
	mapPicks int
	files    map[string]Value
	nfiles   int
	known    []string // known-finding classes the path is in
	asserts  int
	reached  map[string]bool
	varN     int
	open     map[*Value]*openFile
	rtCache  map[*Value][][2]uint64
}

type workItem struct {
	prefix []dec
	model  map[string]uint64
	has    bool
}

type Violation struct {
	Harness string   `json:"harness"`
	Msg     string   `json:"msg"`
	Kind    string   `json:"kind"` // assert, panic, hang, frozen
	Inputs  []RInput `json:"inputs"`
	Known   []string `json:"known,omitempty"`
	Where   string   `json:"where,omitempty"`
}

type RInput struct {
	K string  `json:"k"`
	V uint64  `json:"v"`
	F float64 `json:"f,omitempty"`
}

type Sample struct {
	Inputs []RInput `json:"inputs"`
	Obs    []string `json:"obs"`
}

// Explorer runs one harness over all paths with a pool of machines.
type Explorer struct {
	h        *Harness
	machines []*Machine
	noMerge  bool
	deadline time.Time
	maxPaths int64

	mu       sync.Mutex
	cond     *sync.Cond
	stack    []workItem
	active   int
	stop     bool
	timedOut bool

	Paths      int64
	Completed  int64
	Infeasible int64
	Asserts    int64 // assertion evaluations
	AssertQ    int64 // assertion queries sent to the solver
	AssertUnk  int64
	Inconcl    map[string]int64
	Viol       []Violation
	violSeen   map[string]int
	KnownHit   map[string]Violation
	Reached    map[string]int64
	Samples    []Sample
	Steps      int64
	Decisions  int64
	UnkBranch  int64
	wantSample int
	funcs      map[*ssa.Function]bool
	maxViol    int
}

func NewExplorer(h *Harness, ms []*Machine) *Explorer {
	ex := &Explorer{h: h, machines: ms, Inconcl: map[string]int64{}, violSeen: map[string]int{},
		KnownHit: map[string]Violation{}, Reached: map[string]int64{}, funcs: map[*ssa.Function]bool{}, maxViol: 6}
	ex.cond = sync.NewCond(&ex.mu)
	return ex
}

func (ex *Explorer) Run() {
	ex.stack = []workItem{{}}
	var wg sync.WaitGroup
	for _, m := range ex.machines {
		wg.Add(1)
		go func(m *Machine) {
			defer wg.Done()
			m.ex = ex
			m.h = ex.h
			m.budget = ex.h.Budget
			if m.budget == 0 {
				m.budget = 3_000_000
			}
			for {
				ex.mu.Lock()
				for len(ex.stack) == 0 && ex.active > 0 && !ex.stop {
					ex.cond.Wait()
				}
				if ex.stop || len(ex.stack) == 0 {
					ex.mu.Unlock()
					ex.cond.Broadcast()
					return
				}
				if time.Now().After(ex.deadline) || (ex.maxPaths > 0 && ex.Paths >= ex.maxPaths) {
					ex.timedOut = true
					ex.stop = true
					ex.mu.Unlock()
					ex.cond.Broadcast()
					return
				}
				it := ex.stack[len(ex.stack)-1]
				ex.stack = ex.stack[:len(ex.stack)-1]
				ex.active++
				ex.Paths++
				ex.mu.Unlock()
				m.runPath(it)
				ex.mu.Lock()
				ex.active--
				ex.mu.Unlock()
				ex.cond.Broadcast()
			}
		}(m)
	}
	wg.Wait()
	for _, m := range ex.machines {
		for fn, pf := range m.pfs {
			if pf.calls > 0 {
				ex.funcs[fn] = true
				pf.calls = 0
			}
		}
	}
}

func (ex *Explorer) push(it workItem) {
	ex.mu.Lock()
	ex.stack = append(ex.stack, it)
	ex.mu.Unlock()
	ex.cond.Signal()
}

func (m *Machine) runPath(it workItem) {
	ex := m.ex
	m.path = pathState{prefix: it.prefix, lits: map[*Term]bool{}, dom: map[*Term][2]uint64{}, model: it.model, hasModel: it.has || len(it.prefix) == 0,
		freshC: map[*Value]bool{}, ownMap: map[*Map]bool{}, files: map[string]Value{}, reached: map[string]bool{}}
	if m.path.model == nil {
		m.path.model = map[string]uint64{}
	}
	m.encMemo = map[[4]*Term]encEnt{}
	m.mergeFail = map[*PBlock]int{}
	m.steps = 0
	m.depth = 0
	m.sp = 0
	m.spec = 0
	m.panicking = m.panicking[:0]
	m.logging = true
	kind, msg := m.exec(func() {
		m.call(m.h.Fn, nil, nil)
	})
	m.logging = false
	m.path.frozen, m.path.frozenM = nil, nil
	if m.spec != 0 {
		panic("engine: spec depth leak")
	}
	switch kind {
	case abDone:
		ex.mu.Lock()
		ex.Completed++
		for r := range m.path.reached {
			ex.Reached[r]++
		}
		take := false
		if ex.wantSample > 0 && len(ex.Samples) < ex.wantSample {
			n := ex.Completed
			take = n <= 4 || n&(n-1) == 0 || n%37 == 0
		}
		ex.mu.Unlock()
		if take {
			m.takeSample()
		}
	case abViolation:
		// recorded already
	case abAssumeFalse, abInfeasible:
		ex.mu.Lock()
		ex.Infeasible++
		ex.mu.Unlock()
	case abBudget:
		m.violation("hang", "no result within the step budget: "+msg)
	default:
		ex.mu.Lock()
		ex.Inconcl[msg]++
		ex.mu.Unlock()
	}
	ex.mu.Lock()
	ex.Steps += m.steps
	ex.Decisions += int64(len(m.path.trace))
	ex.mu.Unlock()
	m.rollback(0)
}

// exec runs f, mapping engine aborts and target panics to an outcome.
func (m *Machine) exec(f func()) (kind abortKind, msg string) {
	defer func() {
		r := recover()
		if r == nil {
			return
		}
		switch e := r.(type) {
		case pathAbort:
			kind, msg = e.kind, e.msg
			if kind == abSpec {
				kind, msg = abUnsupported, "spec leak: "+e.msg
			}
			if kind == abUnsupported && traceOn {
				fmt.Fprintln(os.Stderr, "unsupported:", msg)
			}
		case targetPanic:
			if m.ex == nil {
				kind, msg = abUnsupported, "panic in setup: "+m.panicMsg(e)
				return
			}
			func() {
				defer func() {
					if r := recover(); r != nil {
						if pa, ok := r.(pathAbort); ok {
							kind, msg = pa.kind, pa.msg
							return
						}
						panic(r)
					}
				}()
				m.spec = 0
				m.violation("panic", "panic: "+m.panicMsg(e))
				kind = abViolation
			}()
		default:
			panic(r)
		}
		m.spec = 0
	}()
	f()
	return abDone, ""
}

func (m *Machine) panicMsg(e targetPanic) string {
	if i, ok := e.v.p.(*Iface); ok {
		if s, ok := i.v.p.(string); ok {
			return s
		}
		return i.t.t.String()
	}
	return fmt.Sprint(e.v)
}

// ---- literals

func (m *Machine) addLit(t *Term) {
	p := &m.path
	if _, ok := p.lits[t]; ok {
		return
	}
	p.lits[t] = true
	p.lits[m.tt.Not(t)] = false
	m.learn(t)
}

func (m *Machine) learn(t *Term) {
	p := &m.path
	switch t.op {
	case OpAnd:
		for _, x := range t.a {
			m.addLit(x)
		}
	case OpNot:
		x := t.a[0]
		switch x.op {
		case OpOr:
			for _, y := range x.a {
				m.addLit(m.tt.Not(y))
			}
		case OpEq:
			if x.a[0].w > 0 && x.a[1].isC() {
				d := m.domOf(x.a[0])
				if d[0] == x.a[1].n && d[0] < d[1] {
					p.dom[x.a[0]] = [2]uint64{d[0] + 1, d[1]}
				} else if d[1] == x.a[1].n && d[0] < d[1] {
					p.dom[x.a[0]] = [2]uint64{d[0], d[1] - 1}
				}
			}
		}
	case OpEq:
		if t.a[0].w > 0 && t.a[1].isC() {
			m.narrow(t.a[0], t.a[1].n, t.a[1].n)
		}
	case OpUlt:
		if t.a[1].isC() && t.a[1].n > 0 {
			m.narrow(t.a[0], 0, t.a[1].n-1)
		} else if t.a[0].isC() && t.a[0].n < mask(t.a[0].w) {
			m.narrow(t.a[1], t.a[0].n+1, mask(t.a[0].w))
		}
	case OpUle:
		if t.a[1].isC() {
			m.narrow(t.a[0], 0, t.a[1].n)
		} else if t.a[0].isC() {
			m.narrow(t.a[1], t.a[0].n, mask(t.a[0].w))
		}
	case OpIn:
		r := t.set.r
		m.narrow(t.a[0], r[0][0], r[len(r)-1][1])
	}
}

func (m *Machine) domOf(x *Term) [2]uint64 {
	if d, ok := m.path.dom[x]; ok {
		return d
	}
	return [2]uint64{x.lo, x.hi}
}

func (m *Machine) narrow(x *Term, lo, hi uint64) {
	for {
		d := m.domOf(x)
		if lo > d[0] {
			d[0] = lo
		}
		if hi < d[1] {
			d[1] = hi
		}
		if d[0] > d[1] {
			return
		}
		m.path.dom[x] = d
		if x.op == OpZext {
			x = x.a[0]
			lo, hi = d[0], d[1]
			continue
		}
		return
	}
}

// known resolves a condition from the path condition without the solver.
func (m *Machine) known(t *Term) (bool, bool) {
	if t.isC() {
		return t.n == 1, true
	}
	if v, ok := m.path.lits[t]; ok {
		return v, true
	}
	switch t.op {
	case OpNot:
		v, ok := m.known(t.a[0])
		return !v, ok
	case OpAnd:
		all := true
		for _, x := range t.a {
			v, ok := m.known(x)
			if ok && !v {
				return false, true
			}
			if !ok {
				all = false
			}
		}
		if all {
			return true, true
		}
	case OpOr:
		all := true
		for _, x := range t.a {
			v, ok := m.known(x)
			if ok && v {
				return true, true
			}
			if !ok {
				all = false
			}
		}
		if all {
			return false, true
		}
	case OpIte:
		if c, ok := m.known(t.a[0]); ok {
			if c {
				return m.known(t.a[1])
			}
			return m.known(t.a[2])
		}
	case OpEq:
		if t.a[0].w > 0 {
			a, b := m.domOf(t.a[0]), m.domOf(t.a[1])
			if a[1] < b[0] || b[1] < a[0] {
				return false, true
			}
			if a[0] == a[1] && b[0] == b[1] && a[0] == b[0] {
				return true, true
			}
		}
	case OpUlt:
		a, b := m.domOf(t.a[0]), m.domOf(t.a[1])
		if a[1] < b[0] {
			return true, true
		}
		if a[0] >= b[1] {
			return false, true
		}
	case OpUle:
		a, b := m.domOf(t.a[0]), m.domOf(t.a[1])
		if a[1] <= b[0] {
			return true, true
		}
		if a[0] > b[1] {
			return false, true
		}
	case OpIn:
		d := m.domOf(t.a[0])
		any := false
		for _, r := range t.set.r {
			if r[0] <= d[0] && d[1] <= r[1] {
				return true, true
			}
			if r[0] <= d[1] && d[0] <= r[1] {
				any = true
			}
		}
		if !any {
			return false, true
		}
	}
	return false, false
}

func (m *Machine) assertPC(t *Term) {
	m.path.pc = append(m.path.pc, t)
	m.addLit(t)
}

func (m *Machine) newVar(w uint8, lo, hi uint64) *Term {
	m.noSpec()
	v := m.tt.Var(fmt.Sprintf("v%d", m.path.varN), w, lo, hi)
	m.path.varN++
	m.path.vars = append(m.path.vars, v)
	m.path.modelSet = false // the environment of the model lacks v
	if hi < mask(w) {
		t := m.tt.mk(termKey{op: OpUle, a: v.id, b: m.tt.Const(w, hi).id}, []*Term{v, m.tt.Const(w, hi)})
		m.path.pc = append(m.path.pc, t)
	}
	if lo > 0 {
		t := m.tt.mk(termKey{op: OpUle, a: m.tt.Const(w, lo).id, b: v.id}, []*Term{m.tt.Const(w, lo), v})
		m.path.pc = append(m.path.pc, t)
	}
	return v
}

// ---- model

func (m *Machine) varKey(v *Term) string {
	for i, x := range m.path.vars {
		if x == v {
			return fmt.Sprintf("v%d", i)
		}
	}
	return v.name
}

func (m *Machine) ensureEnv() {
	if m.path.modelSet {
		return
	}
	env := make(map[*Term]uint64, len(m.path.vars))
	for i, v := range m.path.vars {
		if x, ok := m.path.model[fmt.Sprintf("v%d", i)]; ok {
			env[v] = x
		} else {
			env[v] = v.lo
		}
	}
	m.tt.SetEnv(env)
	m.path.modelSet = true
}

func (m *Machine) setModel(mod map[*Term]uint64) {
	nm := make(map[string]uint64, len(mod))
	for i, v := range m.path.vars {
		if x, ok := mod[v]; ok {
			nm[fmt.Sprintf("v%d", i)] = x
		}
	}
	m.path.model = nm
	m.path.hasModel = true
	m.path.modelSet = false
}

func (m *Machine) toNamed(mod map[*Term]uint64) map[string]uint64 {
	nm := make(map[string]uint64, len(mod))
	for i, v := range m.path.vars {
		if x, ok := mod[v]; ok {
			nm[fmt.Sprintf("v%d", i)] = x
		}
	}
	return nm
}

func (m *Machine) evalModel(t *Term) (uint64, bool) {
	if !m.path.hasModel {
		return 0, false
	}
	m.ensureEnv()
	return m.tt.Eval(t), true
}

// needModel obtains a model of the current path condition.
func (m *Machine) needModel() bool {
	if m.path.hasModel {
		return true
	}
	r, mod := m.sol.Check(m.path.pc, nil, m.path.vars)
	if r == Sat {
		m.setModel(mod)
		return true
	}
	if r == Unsat {
		panic(pathAbort{abInfeasible, ""})
	}
	return false
}

// termVars lists the variables of a term.
func termVars(t *Term) []*Term {
	if t.varMask == nil {
		t.varMask = varsOf([]*Term{t})
		if t.varMask == nil {
			t.varMask = []*Term{}
		}
	}
	return t.varMask
}

// pool remembers values that solver models gave to variables.
func (m *Machine) pool(mod map[*Term]uint64) {
	for v, x := range mod {
		if v.w < 2 {
			continue
		}
		q := m.vals[v.w]
		dup := false
		for _, y := range q {
			if y == x {
				dup = true
				break
			}
		}
		if dup {
			continue
		}
		if len(q) >= 24 {
			copy(q, q[1:])
			q[len(q)-1] = x
		} else {
			q = append(q, x)
		}
		if m.vals == nil {
			m.vals = map[uint8][]uint64{}
		}
		m.vals[v.w] = q
	}
}

// guess looks for a witness of pc and t near the current model: one variable
// changed to a value seen before. A witness is as good as a solver model; no
// witness says nothing.
func (m *Machine) guess(t *Term) map[*Term]uint64 {
	vs := termVars(t)
	if len(vs) == 0 || len(vs) > 4 {
		return nil
	}
	p := &m.path
	m.ensureEnv()
	env := m.tt.evEnv
	defer func() { p.modelSet = false }()
	try := func(v *Term, x uint64) bool {
		if x < v.lo || x > v.hi {
			return false
		}
		old, had := env[v]
		if had && old == x {
			return false
		}
		env[v] = x
		m.tt.SetEnv(env)
		if m.tt.Eval(t) == 1 {
			ok := true
			for i := len(p.pc) - 1; i >= 0; i-- {
				if m.tt.Eval(p.pc[i]) == 0 {
					ok = false
					break
				}
			}
			if ok {
				return true
			}
		}
		if had {
			env[v] = old
		} else {
			delete(env, v)
		}
		return false
	}
	found := func() map[*Term]uint64 {
		mod := make(map[*Term]uint64, len(p.vars))
		for _, v := range p.vars {
			if x, ok := env[v]; ok {
				mod[v] = x
			} else {
				mod[v] = v.lo
			}
		}
		m.guessed++
		return mod
	}
	for _, v := range vs {
		if v.w == 1 {
			for x := uint64(0); x < 2; x++ {
				if try(v, x) {
					return found()
				}
			}
			continue
		}
		d := m.domOf(v)
		if try(v, d[0]) || try(v, d[1]) {
			return found()
		}
		q := m.vals[v.w]
		for i := len(q) - 1; i >= 0; i-- {
			if q[i] >= d[0] && q[i] <= d[1] && try(v, q[i]) {
				return found()
			}
		}
		for _, u := range p.vars {
			if u != v && u.w == v.w && try(v, env[u]) {
				return found()
			}
		}
	}
	return nil
}

func b2u(b bool) uint64 {
	if b {
		return 1
	}
	return 0
}

// decide returns a truth value for t consistent with the path, forking when
// both are possible.
func (m *Machine) decide(t *Term) bool {
	if t.isC() {
		return t.n == 1
	}
	if v, ok := m.known(t); ok {
		return v
	}
	return m.decideRaw(t, 0)
}

func (m *Machine) decideRaw(t *Term, cand uint64) bool {
	if m.spec > 0 {
		panic(pathAbort{abSpec, "decision"})
	}
	p := &m.path
	lit := func(v bool) *Term {
		if v {
			return t
		}
		return m.tt.Not(t)
	}
	if p.pos < len(p.prefix) {
		d := p.prefix[p.pos]
		if d.h != t.h {
			panic(unsupported("replay of a path prefix went astray"))
		}
		p.pos++
		p.trace = append(p.trace, d)
		if d.forced {
			m.addLit(lit(d.taken))
		} else {
			m.assertPC(lit(d.taken))
		}
		return d.taken
	}
	if len(p.trace) > 4000 {
		panic(pathAbort{abUnsupported, "too many decisions on a path"})
	}
	m.needModel()
	mvu, have := m.evalModel(t)
	mv := mvu == 1
	alt := func(v bool, mod map[*Term]uint64) {
		pre := make([]dec, len(p.trace)+1)
		copy(pre, p.trace)
		pre[len(p.trace)] = dec{v: cand, taken: v, h: t.h}
		it := workItem{prefix: pre}
		if mod != nil {
			it.model = m.toNamed(mod)
			it.has = true
		}
		m.ex.push(it)
	}
	if !have {
		// solver could not give a model: test both sides
		r1, mod1 := m.sol.Check(p.pc, t, p.vars)
		r0, mod0 := m.sol.Check(p.pc, m.tt.Not(t), p.vars)
		switch {
		case r1 == Unsat && r0 == Unsat:
			panic(pathAbort{abInfeasible, ""})
		case r1 == Unsat:
			mv = false
		case r0 == Unsat:
			mv = true
		default:
			if r1 == Unknown || r0 == Unknown {
				m.ex.mu.Lock()
				m.ex.UnkBranch++
				m.ex.mu.Unlock()
			}
			alt(false, mod0)
			if r1 == Sat {
				m.setModel(mod1)
			}
			p.trace = append(p.trace, dec{v: cand, taken: true, h: t.h})
			m.assertPC(t)
			return true
		}
		p.trace = append(p.trace, dec{v: cand, taken: mv, forced: true, h: t.h})
		m.addLit(lit(mv))
		return mv
	}
	r, mod := Sat, m.guess(lit(!mv))
	if mod == nil {
		r, mod = m.sol.Check(p.pc, lit(!mv), p.vars)
		m.pool(mod)
	}
	if r == Unsat {
		p.trace = append(p.trace, dec{v: cand, taken: mv, forced: true, h: t.h})
		m.addLit(lit(mv))
		return mv
	}
	if r == Unknown {
		m.ex.mu.Lock()
		m.ex.UnkBranch++
		m.ex.mu.Unlock()
		mod = nil
	}
	alt(!mv, mod)
	p.trace = append(p.trace, dec{v: cand, taken: mv, h: t.h})
	m.assertPC(lit(mv))
	return mv
}

// concretize picks a value for t, forking over all its values.
func (m *Machine) concretize(t *Term) uint64 {
	if t.isC() {
		return t.n
	}
	if d := m.domOf(t); d[0] == d[1] {
		return d[0]
	}
	for {
		p := &m.path
		var v uint64
		if m.spec > 0 {
			panic(pathAbort{abSpec, "concretize"})
		}
		if p.pos < len(p.prefix) {
			v = p.prefix[p.pos].v
		} else {
			if !m.needModel() {
				panic(unsupported("no model to concretise"))
			}
			v, _ = m.evalModel(t)
		}
		e := m.tt.Eq(t, m.tt.Const(t.w, v))
		if kv, ok := m.known(e); ok {
			// the entry keeps the value for the replay
			if !kv {
				panic(unsupported("concretise: model disagrees"))
			}
			if p.pos < len(p.prefix) {
				if p.prefix[p.pos].h != e.h {
					panic(unsupported("replay of a path prefix went astray"))
				}
				p.pos++
			}
			p.trace = append(p.trace, dec{v: v, taken: true, forced: true, h: e.h})
			m.narrow(t, v, v)
			return v
		}
		if m.decideRaw(e, v) {
			m.narrow(t, v, v)
			return v
		}
	}
}

// pick forks n ways.
func (m *Machine) pick(n int) int {
	m.noSpec()
	p := &m.path
	if p.pos < len(p.prefix) {
		d := p.prefix[p.pos]
		if d.h != uint64(n) {
			panic(unsupported("replay of a path prefix went astray"))
		}
		p.pos++
		p.trace = append(p.trace, d)
		return int(d.v)
	}
	for i := n - 1; i > 0; i-- {
		pre := make([]dec, len(p.trace)+1)
		copy(pre, p.trace)
		pre[len(p.trace)] = dec{v: uint64(i), h: uint64(n)}
		m.ex.push(workItem{prefix: pre, model: p.model, has: p.hasModel})
	}
	p.trace = append(p.trace, dec{v: 0, h: uint64(n)})
	return 0
}

func (m *Machine) assume(v Value) {
	m.noSpec()
	if v.p == nil {
		if v.n == 0 {
			panic(pathAbort{abAssumeFalse, ""})
		}
		return
	}
	t := v.p.(*Term)
	if k, ok := m.known(t); ok {
		if !k {
			panic(pathAbort{abAssumeFalse, ""})
		}
		return
	}
	if m.path.hasModel {
		if x, _ := m.evalModel(t); x == 1 {
			m.assertPC(t)
			return
		}
	}
	m.assertPC(t)
	m.path.hasModel = false
	if m.path.pos < len(m.path.prefix) {
		return // feasibility re-established at the first new decision
	}
	m.needModel()
}

func (m *Machine) assertV(v Value, msg string) {
	m.noSpec()
	ex := m.ex
	m.path.asserts++
	ex.mu.Lock()
	ex.Asserts++
	ex.mu.Unlock()
	if v.p == nil {
		if v.n == 0 {
			m.violation("assert", msg)
			panic(pathAbort{abViolation, msg})
		}
		return
	}
	t := v.p.(*Term)
	if k, ok := m.known(t); ok && k {
		return
	}
	if m.path.pos < len(m.path.prefix) {
		// already decided on the parent path (prefix replay)
		m.assertPC(t)
		return
	}
	ex.mu.Lock()
	ex.AssertQ++
	ex.mu.Unlock()
	r, mod := m.sol.Check(m.path.pc, m.tt.Not(t), m.path.vars)
	switch r {
	case Unsat:
		m.addLit(t)
		return
	case Sat:
		save, has := m.path.model, m.path.hasModel
		m.setModel(mod)
		m.violation("assert", msg)
		m.path.model, m.path.hasModel, m.path.modelSet = save, has, false
		// continue on the side where the assertion holds
		if r2, mod2 := m.sol.Check(m.path.pc, t, m.path.vars); r2 == Sat {
			m.setModel(mod2)
			m.assertPC(t)
			return
		}
		panic(pathAbort{abViolation, msg})
	default:
		ex.mu.Lock()
		ex.AssertUnk++
		ex.mu.Unlock()
		m.assertPC(t)
		m.path.hasModel = false
	}
}

// violation records a candidate counterexample under the current model.
func (m *Machine) violation(kind, msg string) {
	if !m.needModelSafe() {
		m.ex.mu.Lock()
		m.ex.Inconcl["violation candidate without a model: "+msg]++
		m.ex.mu.Unlock()
		return
	}
	v := Violation{Harness: m.h.Name, Msg: msg, Kind: kind, Inputs: m.rinputs(), Known: append([]string{}, m.path.known...)}
	ex := m.ex
	ex.mu.Lock()
	defer ex.mu.Unlock()
	if len(v.Known) > 0 {
		k := v.Known[0]
		if _, ok := ex.KnownHit[k]; !ok {
			ex.KnownHit[k] = v
		}
		return
	}
	key := kind + msg
	ex.violSeen[key]++
	if kind == "frozen" && strings.HasSuffix(msg, "under a lock") {
		if ex.violSeen[key] <= 2 {
			ex.Viol = append(ex.Viol, v)
		}
		return
	}
	if ex.violSeen[key] <= 3 {
		ex.Viol = append(ex.Viol, v)
	}
	if len(ex.Viol) >= ex.maxViol {
		ex.stop = true
	}
	if ex.violSeen[key] > 40 {
		ex.stop = true
	}
}

func (m *Machine) needModelSafe() (ok bool) {
	defer func() {
		if r := recover(); r != nil {
			if _, is := r.(pathAbort); is {
				ok = false
				return
			}
			panic(r)
		}
	}()
	return m.needModel()
}

func (m *Machine) rinputs() []RInput {
	m.ensureEnv()
	out := []RInput{}
	for _, in := range m.path.inputs {
		r := RInput{K: in.kind, V: in.val}
		if in.t != nil {
			r.V = m.tt.Eval(in.t)
			if in.kind == "int" || in.kind == "rune" {
				r.V = uint64(sx(r.V, in.t.w))
			}
		}
		if in.kind == "sel" {
			f := in.menu[r.V]
			if !math.IsInf(f, 0) && !math.IsNaN(f) {
				r.F = f
			}
		}
		out = append(out, r)
	}
	return out
}

func (m *Machine) takeSample() {
	if !m.needModelSafe() {
		return
	}
	s := Sample{Inputs: m.rinputs()}
	m.ensureEnv()
	for _, o := range m.path.obs {
		s.Obs = append(s.Obs, o.kind+":"+m.render(o.v, o.kind))
	}
	m.ex.mu.Lock()
	if len(m.ex.Samples) < m.ex.wantSample {
		m.ex.Samples = append(m.ex.Samples, s)
	}
	m.ex.mu.Unlock()
}

// evalInt / evalStr / evalF evaluate a value under the current model.
func (m *Machine) evalN(v Value) uint64 {
	if t, ok := v.p.(*Term); ok {
		return m.tt.Eval(t)
	}
	return v.n
}

func (m *Machine) evalStr(v Value) string {
	if s, ok := v.p.(*SymStr); ok {
		b := make([]byte, len(s.b))
		for i := range b {
			b[i] = byte(m.evalN(s.b[i]))
		}
		return string(b)
	}
	return goStr(v)
}

func (m *Machine) evalF(v Value) float64 {
	t, ok := v.p.(*TF)
	if !ok {
		return v.f64()
	}
	i := 0
	for _, x := range t.vars {
		i = i*domOf(x) + int(m.tt.Eval(x))
	}
	return t.vals[i]
}

func (m *Machine) render(v Value, kind string) string {
	switch kind {
	case "s":
		return fmt.Sprintf("%q", m.evalStr(v))
	case "i":
		if t, ok := v.p.(*Term); ok {
			return fmt.Sprint(sx(m.tt.Eval(t), t.w))
		}
		return fmt.Sprint(int64(v.n))
	case "b":
		return fmt.Sprint(m.evalN(v) == 1)
	case "f":
		return fmt.Sprintf("%x", math.Float64bits(m.evalF(v)))
	case "ss":
		var out []string
		for _, x := range sliceOf(v) {
			out = append(out, m.evalStr(x))
		}
		return fmt.Sprintf("%q", out)
	}
	return "?"
}

func (m *Machine) frozenWrite() {
	m.noSpec()
	if m.path.excl > 0 {
		// all accesses may be made under the lock: only a candidate
		m.violation("frozen", "write to shared state under a lock")
		return
	}
	m.violation("frozen", "write to shared state during a read-only operation")
	panic(pathAbort{abViolation, "frozen"})
}

// ---- merging

const specMax = 12

func (m *Machine) tryMerge(fr *frame, b *PBlock, cond *Term) (okk bool, next, pred *PBlock, rv Value) {
	if m.spec >= specMax {
		return
	}
	if m.spec == 0 {
		m.specSteps = m.steps
		m.specLimit = 3000
	}
	join := b.ipdom
	mark := len(m.undo)
	depth, sp := m.depth, m.sp
	np := len(m.panicking)
	// an arm may run round an enclosing loop and overwrite registers that
	// are live here
	saved := append([]Value(nil), fr.regs...)
	type wr struct {
		p   *Value
		old Value
		new Value
		ki  kinfo
	}
	type armRes struct {
		ok   bool
		phis []Value
		live []Value
		rv   Value
		ws   []wr
	}
	arm := func(s *PBlock, lit *Term) (ar armRes) {
		m.spec++
		// temporary literals
		added := m.tempLit(lit)
		defer func() {
			m.spec--
			for _, a := range added {
				delete(m.path.lits, a)
			}
			defer copy(fr.regs, saved)
			if r := recover(); r != nil {
				if pa, ok := r.(pathAbort); ok && (pa.kind == abSpec || pa.kind == abUnsupported || (pa.kind == abBudget && false)) {
					m.depth, m.sp = depth, sp
					m.panicking = m.panicking[:np]
					m.rollback(mark)
					ar.ok = false
					return
				}
				panic(r)
			}
		}()
		k, pv, ret := m.runBlocks(fr, s, b, join)
		if k == exRet {
			if join != nil {
				panic(pathAbort{abSpec, "return"})
			}
			ar.rv = ret
		} else {
			for i := range join.phis {
				ph := &join.phis[i]
				if pv == nil {
					ar.phis = append(ar.phis, fr.regs[ph.dst])
				} else {
					ar.phis = append(ar.phis, fr.get(ph.edges[join.predIx[pv]]))
				}
			}
		}
		for _, l := range b.live {
			ar.live = append(ar.live, fr.regs[l.r])
		}
		seen := map[*Value]bool{}
		for i := mark; i < len(m.undo); i++ {
			e := &m.undo[i]
			if e.fn != nil {
				panic(pathAbort{abSpec, "map effect"})
			}
			if seen[e.p] {
				continue
			}
			seen[e.p] = true
			ar.ws = append(ar.ws, wr{p: e.p, old: e.old, new: *e.p, ki: e.ki})
		}
		m.rollback(mark)
		ar.ok = true
		return
	}
	fail := func() {
		m.mergeFail[b]++
	}
	r1 := arm(b.succs[0], cond)
	if !r1.ok {
		fail()
		return
	}
	r2 := arm(b.succs[1], m.tt.Not(cond))
	if !r2.ok {
		fail()
		return
	}
	// merge memory
	type mw struct {
		p  *Value
		v  Value
		ki kinfo
	}
	var out []mw
	w2 := map[*Value]*wr{}
	for i := range r2.ws {
		w2[r2.ws[i].p] = &r2.ws[i]
	}
	done := map[*Value]bool{}
	for i := range r1.ws {
		w := &r1.ws[i]
		other := w.old
		if x, ok := w2[w.p]; ok {
			other = x.new
		}
		done[w.p] = true
		v, ok := m.mergeVal(cond, w.new, other, w.ki)
		if !ok {
			if m.path.freshC[w.p] && w2[w.p] == nil {
				out = append(out, mw{w.p, w.new, w.ki})
				continue
			}
			fail()
			return
		}
		out = append(out, mw{w.p, v, w.ki})
	}
	for i := range r2.ws {
		w := &r2.ws[i]
		if done[w.p] {
			continue
		}
		v, ok := m.mergeVal(cond, w.old, w.new, w.ki)
		if !ok {
			if m.path.freshC[w.p] {
				out = append(out, mw{w.p, w.new, w.ki})
				continue
			}
			fail()
			return
		}
		out = append(out, mw{w.p, v, w.ki})
	}
	if join == nil {
		res := fr.pf.fn.Signature.Results()
		var v Value
		if res.Len() == 1 {
			x, ok := m.mergeVal(cond, r1.rv, r2.rv, kindOf(res.At(0).Type()))
			if !ok {
				fail()
				return
			}
			v = x
		} else if res.Len() > 1 {
			s := &Struct{f: make([]Value, res.Len())}
			for i := range s.f {
				x, ok := m.mergeVal(cond, r1.rv.p.(*Struct).f[i], r2.rv.p.(*Struct).f[i], kindOf(res.At(i).Type()))
				if !ok {
					fail()
					return
				}
				s.f[i] = x
			}
			v = Value{p: s}
		}
		for _, o := range out {
			m.set(o.p, o.v, o.ki)
		}
		return true, nil, nil, v
	}
	phis := make([]Value, len(join.phis))
	for i := range phis {
		x, ok := m.mergeVal(cond, r1.phis[i], r2.phis[i], join.phis[i].ki)
		if !ok {
			fail()
			return
		}
		phis[i] = x
	}
	live := make([]Value, len(b.live))
	for i := range live {
		x, ok := m.mergeVal(cond, r1.live[i], r2.live[i], b.live[i].ki)
		if !ok {
			fail()
			return
		}
		live[i] = x
	}
	for i := range live {
		fr.regs[b.live[i].r] = live[i]
	}
	for _, o := range out {
		m.set(o.p, o.v, o.ki)
	}
	for i := range phis {
		fr.regs[join.phis[i].dst] = phis[i]
	}
	return true, join, b, Value{}
}

// tempLit adds a literal for the duration of a speculative arm.
func (m *Machine) tempLit(t *Term) []*Term {
	var added []*Term
	add := func(x *Term, v bool) {
		if _, ok := m.path.lits[x]; !ok {
			m.path.lits[x] = v
			added = append(added, x)
		}
	}
	var rec func(x *Term)
	rec = func(x *Term) {
		add(x, true)
		add(m.tt.Not(x), false)
		if x.op == OpAnd {
			for _, y := range x.a {
				rec(y)
			}
		}
		if x.op == OpNot && x.a[0].op == OpOr {
			for _, y := range x.a[0].a {
				rec(m.tt.Not(y))
			}
		}
	}
	rec(t)
	return added
}

func (m *Machine) mergeVal(c *Term, a, b Value, ki kinfo) (Value, bool) {
	if a.n == b.n && a.p == b.p {
		return a, true
	}
	switch ki.k {
	case kBool:
		return m.boolV(m.tt.Ite(c, m.term(a, ki), m.term(b, ki))), true
	case kInt:
		if ki.w == 64 && a.p == nil && b.p == nil {
			return Value{}, false
		}
		return m.intV(m.tt.Ite(c, m.term(a, ki), m.term(b, ki)), ki), true
	case kString:
		if strLen(a) != strLen(b) {
			return Value{}, false
		}
		x, y := strBytes(a), strBytes(b)
		out := make([]Value, len(x))
		bk := kinfo{kInt, 8, false}
		for i := range out {
			v, ok := m.mergeVal(c, x[i], y[i], bk)
			if !ok {
				return Value{}, false
			}
			out[i] = v
		}
		return mkStr(out), true
	case kSlice:
		x, ok1 := a.p.(*Slice)
		y, ok2 := b.p.(*Slice)
		if ok1 && ok2 && len(x.a) == len(y.a) && cap(x.a) == cap(y.a) && len(x.a) > 0 && &x.a[0] == &y.a[0] {
			return a, true
		}
	case kIface:
		x, ok1 := a.p.(*Iface)
		y, ok2 := b.p.(*Iface)
		if ok1 && ok2 && x.t == y.t {
			v, ok := m.mergeVal(c, x.v, y.v, x.t.ki)
			if ok {
				return Value{p: &Iface{x.t, v}}, true
			}
		}
	}
	return Value{}, false
}

func sortedKeys[V any](mp map[string]V) []string {
	var ks []string
	for k := range mp {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	return ks
}
