package main

import (
	"fmt"
	"go/types"
	"sort"
	"strings"
	"time"

	"golang.org/x/tools/go/ssa"
)

// dec is one recorded decision of a path.
type dec struct {
	alt    int32
	forced bool   // the other alternatives were infeasible
	val    uint64 // concretised value
}

// workItem is a path prefix still to be explored, with a model of it.
type workItem struct {
	prefix []dec
	model  map[string]uint64
}

// inputRec is one nondeterministic input of a path, in creation order.
type inputRec struct {
	Name string
	Kind string // int bool choice str
	term *Term
	str  *Str
	Val  interface{}
}

type obsRec struct {
	label string
	v     Value
	t     types.Type
}

type undo struct {
	p   Ptr
	old Value
	fn  func()
}

// Candidate is a possible violation.
type Candidate struct {
	Harness string
	Msg     string
	Kind    string // assert panic steps exit
	Inputs  []interface{}
	Names   []string
	Known   []string
	Stack   []string

	Native    nativeResult
	Confirmed bool
}

// Witness is a completed path with concrete inputs and the observations the engine predicts.
type Witness struct {
	Harness string
	Inputs  []interface{}
	Obs     []string
	Reach   []string
}

type pathEnd struct {
	kind string // done assume infeasible unsupported steps timeout exit
	msg  string
}

type goPanic struct {
	v     ifaceV
	msg   string
	stack []string
}

// knownRec marks the inputs of a recorded finding.
type knownRec struct {
	id   string
	cond *Term
}

type exitSig struct{ code *Term }

// Stats accumulates over paths.
type Stats struct {
	Paths, Infeasible, Assumed, Unsupported, StepLimit int
	Instr, Decisions, Forks, Merges, MergeFail         int64
	AssertTrivial, AssertUnsat, AssertSat, AssertUnk   int
	BranchUnk, Timeouts, Repaired, Cross               int
	UnsupMsg                                           map[string]int
	Reach                                              map[string]int
	Funcs                                              map[string]bool
	Imprecise                                          map[string]int
}

func newStats() *Stats {
	return &Stats{UnsupMsg: map[string]int{}, Reach: map[string]int{}, Funcs: map[string]bool{}, Imprecise: map[string]int{}}
}

// Machine executes one path at a time.
type Machine struct {
	prog *Program
	c    *Ctx
	s    *Solver
	ex   *Explorer
	st   *Stats

	globals  map[*ssa.Global]Ptr
	inited   map[*ssa.Package]bool
	initing  int
	epoch    int
	log      []undo
	fninfo   map[*ssa.Function]*fnInfo
	methods  map[methKey]*fnInfo
	typeStrs map[types.Type]string

	// per path
	harness   string
	prefix    []dec
	trace     []dec
	cross     []*Term // assertions decided by simplification, for the solver's confirmation
	crossMsg  string
	saved     map[string]uint64
	pc        []*Term
	lits      map[*Term]bool
	eqUp      map[eqKey]eqKey // equality classes of strings
	neqs      [][2]eqKey
	dom       map[*Term]tset
	rel       map[*Term]bool
	modelOK   bool
	pathVars  []*Term
	inputs    []inputRec
	obs       []obsRec
	reach     []string
	known     []knownRec
	nameCnt   map[string]int
	atomCnt   int
	steps     int64
	depth     int
	stdout    []seg
	outStack  [][]seg
	mapPerm   int
	exitOK    int
	vfs       *vfs
	callStk   []*ssa.Function
	spec      int
	panicking []*frame
	native    map[string]Value
	pdoms     map[*fnInfo][]int
}

type methKey struct {
	t    types.Type
	name string
}

func (m *Machine) unsupported(f string, a ...interface{}) {
	if m.initing > 0 {
		panic(pathEnd{"unsupported", "init: " + fmt.Sprintf(f, a...)})
	}
	panic(pathEnd{"unsupported", fmt.Sprintf(f, a...)})
}

func (m *Machine) imprecise(s string) { m.st.Imprecise[s]++ }

func (m *Machine) store(p Ptr, v Value) {
	if m.initing == 0 {
		m.log = append(m.log, undo{p: p, old: *p})
	}
	*p = v
}

func (m *Machine) rollback() {
	for i := len(m.log) - 1; i >= 0; i-- {
		u := &m.log[i]
		if u.fn != nil {
			u.fn()
		} else {
			*u.p = u.old
		}
	}
	m.log = m.log[:0]
}

// newVar creates a path variable; hint is the preferred model value.
func (m *Machine) newVar(name string, w uint8, hint uint64) *Term {
	v := m.c.Var(fmt.Sprintf("%s!%d", name, w), w)
	m.pathVars = append(m.pathVars, v)
	if w <= 8 {
		m.dom[v] = domainOf(v)
	}
	if m.c.model != nil {
		if x, ok := m.saved[v.name]; ok {
			m.c.model[v] = x
		} else {
			m.c.model[v] = hint
		}
	}
	return v
}

// known tells whether cond is decided by the facts at hand (syntactically or by byte domains).
func (m *Machine) knownCond(cond *Term) (bool, bool) {
	if cond.op == OpConst {
		return cond.val == 1, true
	}
	if v, ok := m.lits[cond]; ok {
		return v, true
	}
	if cond.op == OpNot {
		if v, ok := m.lits[cond.args[0]]; ok {
			return !v, true
		}
	}
	if cond.uvar != nil {
		d, ok := m.dom[cond.uvar]
		if ok {
			tb := *m.c.table(cond)
			x := d.and(tb)
			if x.empty() {
				return false, true
			}
			if x == d {
				return true, true
			}
		}
		return false, false
	}
	if cond.op == OpAnd {
		if p, ok := m.c.eqOf[cond]; ok {
			if v, ok := m.knownEq(p); ok {
				return v, true
			}
		}
		all := true
		for _, a := range cond.args {
			v, ok := m.knownCond(a)
			if ok && !v {
				return false, true
			}
			if !ok {
				all = false
			}
		}
		if all {
			return true, true
		}
	}
	if cond.op == OpOr {
		all := true
		for _, a := range cond.args {
			v, ok := m.knownCond(a)
			if ok && v {
				return true, true
			}
			if !ok {
				all = false
			}
		}
		if all {
			return false, true
		}
	}
	if cond.op == OpNot && (cond.args[0].op == OpAnd || cond.args[0].op == OpOr) {
		v, ok := m.knownCond(cond.args[0])
		return !v, ok
	}
	return false, false
}

func (m *Machine) eqRoot(k eqKey) eqKey {
	for {
		u, ok := m.eqUp[k]
		if !ok {
			return k
		}
		k = u
	}
}

// knownEq decides an equation between strings by the equality classes of the path.
func (m *Machine) knownEq(p [2]eqKey) (bool, bool) {
	a, b := m.eqRoot(p[0]), m.eqRoot(p[1])
	if a == b {
		return true, true
	}
	if a[0] == 'c' && b[0] == 'c' {
		return false, true
	}
	for _, q := range m.neqs {
		x, y := m.eqRoot(q[0]), m.eqRoot(q[1])
		if (x == a && y == b) || (x == b && y == a) {
			return false, true
		}
	}
	return false, false
}

func (m *Machine) addEq(p [2]eqKey, eq bool) {
	if !eq {
		m.neqs = append(m.neqs, p)
		return
	}
	a, b := m.eqRoot(p[0]), m.eqRoot(p[1])
	if a == b {
		return
	}
	if a[0] == 'c' { // constants are roots
		a, b = b, a
	}
	m.eqUp[a] = b
}

// addFact records t as true; if implied, it is not asserted in the solver.
func (m *Machine) addFact(t *Term, implied bool) {
	if t.op == OpConst {
		if t.val == 0 {
			panic(pathEnd{"infeasible", ""})
		}
		return
	}
	if v, ok := m.lits[t]; ok && v {
		return
	}
	if t.op == OpNot {
		if p, ok := m.c.eqOf[t.args[0]]; ok {
			m.addEq(p, false)
		}
	}
	if t.op == OpAnd {
		if p, ok := m.c.eqOf[t]; ok {
			m.addEq(p, true)
		}
		for _, a := range t.args {
			if a.uvar == nil && !implied {
				m.markRel(a)
			}
			m.addFact(a, true)
		}
		m.lits[t] = true
		if !implied {
			m.pushPC(t)
		}
		return
	}
	m.lits[t] = true
	m.lits[m.c.Not(t)] = false
	if t.op == OpNot && t.args[0].op == OpOr {
		for _, a := range t.args[0].args {
			m.addFact(m.c.Not(a), implied)
		}
		return
	}
	if t.uvar != nil {
		if d, ok := m.dom[t.uvar]; ok {
			d = d.and(*m.c.table(t))
			m.dom[t.uvar] = d
			if d.empty() {
				panic(pathEnd{"infeasible", ""})
			}
		}
	} else if !implied {
		m.markRel(t)
	}
	if !implied {
		m.pushPC(t)
	}
}

func (m *Machine) pushPC(t *Term) {
	m.pc = append(m.pc, t)
	if m.modelOK && m.c.Eval(t) == 0 {
		m.modelOK = false
	}
}

// simp rewrites t under the facts at hand.
func (m *Machine) simp(t *Term, memo map[*Term]*Term) *Term {
	if t.op == OpConst {
		return t
	}
	if r, ok := memo[t]; ok {
		return r
	}
	if len(memo) > 3000 {
		return t
	}
	c := m.c
	r := t
	if t.w == 0 {
		if v, ok := m.knownCond(t); ok {
			r = c.Bool(v)
			memo[t] = r
			return r
		}
	} else if t.uvar != nil {
		if d, ok := m.dom[t.uvar]; ok && d.count() == 1 {
			for v := uint64(0); v < 256; v++ {
				if d.has(v) {
					r = c.Const(t.w, evalUnary(t, v))
				}
			}
			memo[t] = r
			return r
		}
	}
	if t.op == OpVar || (t.uvar != nil && t.op != OpIte) {
		memo[t] = t
		return t
	}
	args := make([]*Term, len(t.args))
	ch := false
	for i, a := range t.args {
		args[i] = m.simp(a, memo)
		ch = ch || args[i] != a
	}
	if ch {
		switch t.op {
		case OpNot:
			r = c.Not(args[0])
		case OpAnd:
			r = c.And(args...)
		case OpOr:
			r = c.Or(args...)
		case OpIte:
			r = c.Ite(args[0], args[1], args[2])
		case OpEq:
			r = c.Eq(args[0], args[1])
		case OpUlt, OpUle, OpSlt, OpSle:
			r = c.cmp(t.op, args[0], args[1])
		case OpBvNot, OpNeg:
			r = c.Un(t.op, args[0])
		case OpZext:
			r = c.Resize(args[0], t.w, false)
		case OpSext:
			r = c.Resize(args[0], t.w, true)
		case OpTrunc:
			r = c.Resize(args[0], t.w, false)
		default:
			r = c.Bin(t.op, args[0], args[1])
		}
		if r.w == 0 && r.op != OpConst {
			if v, ok := m.knownCond(r); ok {
				r = c.Bool(v)
			}
		}
	}
	memo[t] = r
	return r
}

func varsOf(t *Term, out map[*Term]bool, limit int) bool {
	if t.op == OpVar {
		out[t] = true
		return len(out) <= limit
	}
	if t.uvar != nil {
		out[t.uvar] = true
		return len(out) <= limit
	}
	for _, a := range t.args {
		if a.op != OpConst && !varsOf(a, out, limit) {
			return false
		}
	}
	return true
}

// repair tries to turn the current model of pc into one of pc AND cond by changing few
// variables; nil if it does not find one (then the solver decides).
func (m *Machine) repair(cond *Term) map[*Term]uint64 {
	if !m.modelOK {
		return nil
	}
	old := m.c.model
	nm := make(map[*Term]uint64, len(old))
	for k, v := range old {
		nm[k] = v
	}
	m.c.setModel(nm)
	fixed := map[*Term]bool{}
	tries := 0
	fix := func(t *Term) bool {
		vs := map[*Term]bool{}
		if !varsOf(t, vs, 4) {
			return false
		}
		// deterministic order: creation order
		for i := len(m.pathVars) - 1; i >= 0; i-- {
			v := m.pathVars[i]
			if !vs[v] || fixed[v] {
				continue
			}
			d, ok := m.dom[v]
			if !ok {
				continue
			}
			was := nm[v]
			for _, r := range [][2]uint64{{'a', 'z'}, {0, 255}} {
				for x := r[0]; x <= r[1]; x++ {
					if !d.has(x) || x == was {
						continue
					}
					if tries++; tries > 3000 {
						return false
					}
					nm[v] = x
					m.c.gen++
					if m.c.Eval(t) != 0 {
						fixed[v] = true
						return true
					}
				}
			}
			nm[v] = was
			m.c.gen++
		}
		return false
	}
	ok := false
	for round := 0; round < 60; round++ {
		var bad *Term
		if m.c.Eval(cond) == 0 {
			bad = cond
		} else {
			for _, t := range m.pc {
				if m.c.Eval(t) == 0 {
					bad = t
					if t.op == OpAnd {
						for _, a := range t.args {
							if m.c.Eval(a) == 0 {
								bad = a
								break
							}
						}
					}
					break
				}
			}
		}
		if bad == nil {
			ok = true
			break
		}
		if !fix(bad) {
			break
		}
	}
	m.c.setModel(old)
	if !ok {
		return nil
	}
	m.st.Repaired++
	return nm
}

func (m *Machine) markRel(t *Term) {
	if t.op == OpVar {
		m.rel[t] = true
		return
	}
	if t.uvar != nil {
		m.rel[t.uvar] = true
		return
	}
	for _, a := range t.args {
		if a.op != OpConst {
			m.markRel(a)
		}
	}
}

// feasible decides pc AND cond; on success a model is returned (nil if unknown).
func (m *Machine) feasible(cond *Term) (Result, map[*Term]uint64) {
	if cond.isFalse() {
		return Unsat, nil
	}
	if m.modelOK && m.c.Eval(cond) != 0 {
		return Sat, m.c.model
	}
	if cond.uvar != nil && !m.rel[cond.uvar] {
		if d, ok := m.dom[cond.uvar]; ok {
			x := d.and(*m.c.table(cond))
			if x.empty() {
				return Unsat, nil
			}
			if m.modelOK {
				nm := make(map[*Term]uint64, len(m.c.model))
				for k, v := range m.c.model {
					nm[k] = v
				}
				nm[cond.uvar] = pickByte(x)
				return Sat, nm
			}
		}
	}
	m.ex.checkDeadline()
	if nm := m.repair(cond); nm != nil {
		return Sat, nm
	}
	r, mod := m.s.Check(m.pc, cond, m.pathVars)
	if r == Sat {
		for _, v := range m.pathVars {
			if _, ok := mod[v]; !ok {
				mod[v] = m.anyOf(v)
			}
		}
	}
	return r, mod
}

// anyOf picks a value for a variable the solver never saw: its old value if there is one.
func (m *Machine) anyOf(v *Term) uint64 {
	if m.c.model != nil {
		if x, ok := m.c.model[v]; ok {
			return x
		}
	}
	return 0
}

// pickByte prefers readable values.
func pickByte(s tset) uint64 {
	for _, r := range [][2]uint64{{'a', 'z'}, {'A', 'Z'}, {'0', '9'}, {' ', '~'}} {
		for v := r[0]; v <= r[1]; v++ {
			if s.has(v) {
				return v
			}
		}
	}
	for v := uint64(0); v < 256; v++ {
		if s.has(v) {
			return v
		}
	}
	return 0
}

func (m *Machine) setModel(mod map[*Term]uint64) {
	if mod == nil {
		m.modelOK = false
		return
	}
	m.c.setModel(mod)
	m.modelOK = true
}

func (m *Machine) exportModel(mod map[*Term]uint64) map[string]uint64 {
	if mod == nil {
		return nil
	}
	r := make(map[string]uint64, len(mod))
	for _, v := range m.pathVars {
		r[v.name] = mod[v]
	}
	return r
}

// choose picks one of mutually exclusive, exhaustive alternatives, forking the rest.
func (m *Machine) choose(conds []*Term) int {
	nlive, only := 0, -1
	for i, cd := range conds {
		v, ok := m.knownCond(cd)
		if ok && v {
			return i
		}
		if !ok {
			nlive++
			only = i
		}
	}
	if nlive == 0 {
		panic(pathEnd{"infeasible", ""})
	}
	if nlive == 1 {
		// everything else is excluded by known facts
		m.addFact(conds[only], true)
		return only
	}
	k := len(m.trace)
	if k < len(m.prefix) {
		d := m.prefix[k]
		m.trace = append(m.trace, d)
		m.addFact(conds[d.alt], d.forced)
		return int(d.alt)
	}
	m.st.Decisions++
	if m.initing > 0 {
		m.unsupported("symbolic decision in init")
	}
	// find feasible alternatives
	type alt struct {
		i   int
		mod map[*Term]uint64
		unk bool
	}
	var feas []alt
	remaining := nlive
	for i, cd := range conds {
		if v, ok := m.knownCond(cd); ok && !v {
			continue
		}
		remaining--
		if remaining == 0 && len(feas) == 0 {
			// pc is satisfiable and the alternatives are exhaustive
			feas = append(feas, alt{i: i})
			break
		}
		r, mod := m.feasible(cd)
		if r == Unsat {
			continue
		}
		if r == Unknown {
			m.st.BranchUnk++
		}
		feas = append(feas, alt{i, mod, r == Unknown})
	}
	if len(feas) == 1 {
		d := dec{alt: int32(feas[0].i), forced: !feas[0].unk}
		m.trace = append(m.trace, d)
		m.addFact(conds[d.alt], d.forced)
		return int(d.alt)
	}
	m.st.Forks += int64(len(feas) - 1)
	for _, f := range feas[1:] {
		p := make([]dec, k+1)
		copy(p, m.trace)
		p[k] = dec{alt: int32(f.i)}
		m.ex.push(workItem{prefix: p, model: m.exportModel(f.mod)})
	}
	d := dec{alt: int32(feas[0].i)}
	m.trace = append(m.trace, d)
	if feas[0].mod != nil && (!m.modelOK || m.c.Eval(conds[d.alt]) == 0) {
		m.setModel(feas[0].mod)
	}
	m.addFact(conds[d.alt], false)
	return int(d.alt)
}

// pick makes an unconditional n-way choice (a schedule point or structural choice).
func (m *Machine) pick(n int) int {
	if n <= 1 {
		return 0
	}
	k := len(m.trace)
	if k < len(m.prefix) {
		d := m.prefix[k]
		m.trace = append(m.trace, d)
		return int(d.alt)
	}
	m.st.Decisions++
	m.st.Forks += int64(n - 1)
	var mod map[string]uint64
	if m.modelOK {
		mod = m.exportModel(m.c.model)
	}
	for i := n - 1; i >= 1; i-- {
		p := make([]dec, k+1)
		copy(p, m.trace)
		p[k] = dec{alt: int32(i)}
		m.ex.push(workItem{prefix: p, model: mod})
	}
	m.trace = append(m.trace, dec{alt: 0})
	return 0
}

func (m *Machine) branch(cond *Term) bool {
	if v, ok := m.knownCond(cond); ok {
		return v
	}
	if cond.uvar == nil {
		if s := m.simp(cond, map[*Term]*Term{}); s.op == OpConst {
			return s.val == 1
		} else if s != cond {
			return m.choose([]*Term{s, m.c.Not(s)}) == 0
		}
	}
	return m.choose([]*Term{cond, m.c.Not(cond)}) == 0
}

// concretize forks over the feasible values of t.
func (m *Machine) concretize(t *Term) uint64 {
	if t.isConst() {
		return t.val
	}
	if t.uvar != nil {
		if d, ok := m.dom[t.uvar]; ok {
			// enumerate the values of t over the domain
			vals := map[uint64]bool{}
			for v := uint64(0); v < 256; v++ {
				if d.has(v) {
					vals[evalUnary(t, v)] = true
				}
			}
			if len(vals) == 1 {
				for v := range vals {
					return v
				}
			}
			if len(vals) <= 40 {
				vs := make([]uint64, 0, len(vals))
				for v := range vals {
					vs = append(vs, v)
				}
				sort.Slice(vs, func(i, j int) bool { return vs[i] < vs[j] })
				conds := make([]*Term, len(vs))
				for i, v := range vs {
					conds[i] = m.c.Eq(t, m.c.Const(t.w, v))
				}
				return vs[m.choose(conds)]
			}
		}
	}
	for n := 0; ; n++ {
		k := len(m.trace)
		if k < len(m.prefix) {
			d := m.prefix[k]
			m.trace = append(m.trace, d)
			e := m.c.Eq(t, m.c.Const(t.w, d.val))
			if d.alt == 0 {
				m.addFact(e, d.forced)
				return d.val
			}
			m.addFact(m.c.Not(e), d.forced)
			continue
		}
		if n > 64 {
			m.unsupported("too many values to concretise")
		}
		m.ensureModel()
		v := m.c.Eval(t)
		e := m.c.Eq(t, m.c.Const(t.w, v))
		if kv, ok := m.knownCond(e); ok && kv {
			m.trace = append(m.trace, dec{forced: true, val: v})
			return v
		}
		m.st.Decisions++
		r, mod := m.feasible(m.c.Not(e))
		d := dec{alt: 0, val: v}
		if r == Unsat {
			d.forced = true
		} else {
			m.st.Forks++
			p := make([]dec, k+1)
			copy(p, m.trace)
			p[k] = dec{alt: 1, val: v}
			m.ex.push(workItem{prefix: p, model: m.exportModel(mod)})
		}
		m.trace = append(m.trace, d)
		m.addFact(e, d.forced)
		return v
	}
}

// ensureModel makes sure a model of pc is installed.
func (m *Machine) ensureModel() {
	if m.modelOK {
		return
	}
	m.ex.checkDeadline()
	r, mod := m.s.Check(m.pc, nil, m.pathVars)
	switch r {
	case Unsat:
		panic(pathEnd{"infeasible", ""})
	case Unknown:
		panic(pathEnd{"unsupported", "solver unknown on path condition"})
	}
	for _, v := range m.pathVars {
		if _, ok := mod[v]; !ok {
			mod[v] = m.anyOf(v)
		}
	}
	m.setModel(mod)
}

func (m *Machine) assume(t *Term) {
	if v, ok := m.knownCond(t); ok {
		if !v {
			panic(pathEnd{"assume", ""})
		}
		return
	}
	if len(m.trace) < len(m.prefix) {
		m.addFact(t, false)
		return
	}
	if m.modelOK && m.c.Eval(t) != 0 {
		m.addFact(t, false)
		return
	}
	r, mod := m.feasible(t)
	if r == Unsat {
		panic(pathEnd{"assume", ""})
	}
	if mod != nil {
		m.setModel(mod)
	}
	m.addFact(t, false)
}

// assert checks t on every continuation of the current path.
func (m *Machine) assert(t *Term, msg string) {
	replaying := len(m.trace) < len(m.prefix)
	if v, ok := m.knownCond(t); ok && v {
		if !replaying {
			m.st.AssertTrivial++
			if t.op != OpConst {
				m.cross = append(m.cross, t)
				m.crossMsg = msg
			}
		}
		return
	}
	if m.simp(t, map[*Term]*Term{}).isTrue() {
		if !replaying {
			m.st.AssertTrivial++
			m.cross = append(m.cross, t)
			m.crossMsg = msg
		}
		m.addFact(t, true)
		return
	}
	if replaying {
		// checked by the path that created this prefix
		if t.isFalse() {
			panic(pathEnd{"done", "assertion false earlier"})
		}
		m.addFact(t, true)
		return
	}
	neg := m.c.Not(t)
	m.ex.checkDeadline()
	if debugAsserts {
		println("ASSERT", msg, dump(m.simp(t, map[*Term]*Term{}), 7))
	}
	r, mod := m.s.Check(m.pc, neg, m.pathVars)
	if r == Sat && len(m.known) > 0 {
		// prefer a violation that is not a recorded finding
		ex := []*Term{neg}
		for _, k := range m.known {
			ex = append(ex, m.c.Not(k.cond))
		}
		if r2, mod2 := m.s.Check(m.pc, m.c.And(ex...), m.pathVars); r2 == Sat {
			mod = mod2
		}
	}
	switch r {
	case Unsat:
		m.st.AssertUnsat++
		m.addFact(t, true)
	case Unknown:
		m.st.AssertUnk++
		m.addFact(t, true)
	case Sat:
		m.st.AssertSat++
		for _, v := range m.pathVars {
			if _, ok := mod[v]; !ok {
				mod[v] = m.anyOf(v)
			}
		}
		m.candidate("assert", msg, mod, nil)
		// keep exploring the rest of this path where the assertion holds
		if v, ok := m.knownCond(t); ok && !v {
			panic(pathEnd{"done", "assertion violated"})
		}
		r2, mod2 := m.s.Check(m.pc, t, m.pathVars)
		if r2 != Sat {
			panic(pathEnd{"done", "assertion violated"})
		}
		for _, v := range m.pathVars {
			if _, ok := mod2[v]; !ok {
				mod2[v] = m.anyOf(v)
			}
		}
		m.setModel(mod2)
		m.addFact(t, true) // paths below carry it as a fact only
		m.pc = append(m.pc, t)
		m.markRel(t)
	}
}

func (m *Machine) inputVals() []interface{} {
	out := make([]interface{}, len(m.inputs))
	for i, in := range m.inputs {
		switch in.Kind {
		case "str":
			s := m.c.evalStr(in.str)
			bs := make([]int, len(s))
			for k := 0; k < len(s); k++ {
				bs[k] = int(s[k])
			}
			out[i] = map[string]interface{}{"n": in.Name, "s": bs, "show": fmt.Sprintf("%q", s)}
		case "choice":
			out[i] = map[string]interface{}{"n": in.Name, "i": in.Val}
		case "bool":
			out[i] = map[string]interface{}{"n": in.Name, "i": int64(m.c.Eval(in.term))}
		default:
			out[i] = map[string]interface{}{"n": in.Name, "i": sext64(m.c.Eval(in.term), in.term.w)}
		}
	}
	return out
}

func (m *Machine) stackNames() []string {
	var r []string
	for i := len(m.callStk) - 1; i >= 0 && len(r) < 12; i-- {
		r = append(r, m.callStk[i].String())
	}
	return r
}

func (m *Machine) candidate(kind, msg string, mod map[*Term]uint64, stack []string) {
	om, ok := m.c.model, m.modelOK
	m.c.setModel(mod)
	if stack == nil {
		stack = m.stackNames()
	}
	var known []string
	for _, k := range m.known {
		if m.c.Eval(k.cond) != 0 {
			known = append(known, k.id)
		}
	}
	m.ex.addCandidate(Candidate{Harness: m.harness, Msg: msg, Kind: kind, Inputs: m.inputVals(), Known: known, Stack: stack})
	m.c.setModel(om)
	m.modelOK = ok
}

// fixLen makes the length of s concrete, forking over its possible values.
func (m *Machine) fixLen(s *Str) []*Term {
	if b, ok := m.c.fixed(s); ok {
		return b
	}
	var out []*Term
	for _, g := range s.segs {
		switch g.kind {
		case segBytes:
			out = append(out, g.bytes...)
		case segAtom:
			n := m.concretize(g.n)
			out = append(out, g.bytes[:n]...)
		case segItoa:
			v := m.concretize(g.n)
			out = append(out, m.c.bytesOf(itoa64(int64(v)))...)
		}
	}
	return out
}

// runPath executes harness fn along the item's prefix and beyond.
func (m *Machine) runPath(fn *ssa.Function, it workItem) {
	m.harness = fn.Name()
	m.prefix = it.prefix
	m.trace = m.trace[:0]
	m.cross = m.cross[:0]
	m.saved = it.model
	m.pc = m.pc[:0]
	m.lits = map[*Term]bool{}
	m.eqUp, m.neqs = map[eqKey]eqKey{}, nil
	m.dom = map[*Term]tset{}
	m.rel = map[*Term]bool{}
	m.pathVars = m.pathVars[:0]
	m.inputs = nil
	m.obs = nil
	m.reach = nil
	m.known = nil
	m.nameCnt = map[string]int{}
	m.atomCnt = 0
	m.steps = 0
	m.depth = 0
	m.stdout = nil
	m.outStack = nil
	m.mapPerm = 0
	m.exitOK = 0
	m.vfs = nil
	m.callStk = m.callStk[:0]
	m.panicking = m.panicking[:0]
	m.spec = 0
	m.initing = 0
	m.epoch++
	m.c.setModel(map[*Term]uint64{})
	m.modelOK = it.model != nil
	end := pathEnd{kind: "done"}
	func() {
		defer func() {
			if r := recover(); r != nil {
				switch x := r.(type) {
				case pathEnd:
					end = x
				case *goPanic:
					end = pathEnd{"panic", x.msg}
					m.recordPanic(x)
				case exitSig:
					end = pathEnd{"exit", ""}
					m.recordPanic(&goPanic{msg: fmt.Sprintf("os.Exit(%d) called", m.evalInt(x.code)), stack: m.stackNames()})
				default:
					panic(r)
				}
			}
		}()
		m.call(m.info(fn), nil, nil)
		m.ensureModel()
		m.crossCheck()
	}()
	m.st.Instr += m.steps
	switch end.kind {
	case "done":
		m.st.Paths++
		for _, r := range m.reach {
			m.st.Reach[r]++
		}
		if end.msg == "" && m.modelOK && m.ex.wantWitness() {
			m.ex.addWitness(m.makeWitness())
		}
	case "panic", "exit":
		m.st.Paths++
	case "infeasible":
		m.st.Infeasible++
	case "assume":
		m.st.Assumed++
	case "unsupported":
		m.st.Unsupported++
		m.st.UnsupMsg[end.msg]++
	case "timeout":
		m.st.Timeouts++
		m.ex.mu.Lock()
		m.ex.TimedOut = true
		m.ex.mu.Unlock()
	case "steps":
		m.st.StepLimit++
		func() {
			defer func() { recover() }()
			m.ensureModel()
			m.candidate("steps", "step limit reached (possible non-termination)", m.c.model, nil)
		}()
	}
	m.rollback()
}

// crossCheck submits the assertions decided by simplification to the solver (a bounded number of paths per harness).
func (m *Machine) crossCheck() {
	if len(m.cross) == 0 || !m.ex.takeCross() {
		return
	}
	neg := m.c.Not(m.c.And(m.cross...))
	if neg.isFalse() {
		return
	}
	m.st.Cross++
	r, mod := m.s.Check(m.pc, neg, m.pathVars)
	switch r {
	case Unknown:
		m.st.AssertUnk++
	case Sat:
		for _, v := range m.pathVars {
			if _, ok := mod[v]; !ok {
				mod[v] = m.anyOf(v)
			}
		}
		m.st.AssertSat++
		m.candidate("assert", m.crossMsg, mod, nil)
	}
}

func (m *Machine) evalInt(t *Term) int64 {
	if t.isConst() {
		return sext64(t.val, t.w)
	}
	return sext64(m.c.Eval(t), t.w)
}

func (m *Machine) recordPanic(p *goPanic) {
	func() {
		defer func() { recover() }()
		m.ensureModel()
		if len(m.known) > 0 {
			var ex []*Term
			for _, k := range m.known {
				ex = append(ex, m.c.Not(k.cond))
			}
			if r, mod := m.s.Check(m.pc, m.c.And(ex...), m.pathVars); r == Sat {
				m.setModel(mod)
			}
		}
		m.candidate("panic", "panic: "+p.msg, m.c.model, p.stack)
	}()
}

func (m *Machine) makeWitness() Witness {
	w := Witness{Harness: m.harness, Inputs: m.inputVals(), Reach: append([]string(nil), m.reach...)}
	for _, o := range m.obs {
		w.Obs = append(w.Obs, o.label+"="+m.showObs(o.v, o.t))
	}
	return w
}

func (m *Machine) showObs(v Value, t types.Type) string {
	switch x := v.(type) {
	case *Str:
		return fmt.Sprintf("%q", m.c.evalStr(x))
	case *Term:
		if x.w == 0 {
			return fmt.Sprint(m.c.Eval(x) != 0)
		}
		if t != nil && !isSigned(t) {
			return fmt.Sprint(m.c.Eval(x))
		}
		return fmt.Sprint(sext64(m.c.Eval(x), x.w))
	}
	return fmt.Sprintf("?%T", v)
}

var startTime = time.Now()

func shortFn(f *ssa.Function) string { return strings.TrimPrefix(f.String(), "github.com/") }
