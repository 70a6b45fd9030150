package main

import (
	"golang.org/x/tools/go/ssa"
)

// buildRegion computes the merge region of the If ending block bi: the acyclic set of
// blocks between it and its immediate post-dominator.
func (m *Machine) buildRegion(fi *fnInfo, bi int) *region {
	b := &fi.blocks[bi]
	if b.regOK {
		return b.region
	}
	b.regOK = true
	r := &region{}
	b.region = r
	pd := m.postdoms(fi)
	join := pd[bi]
	if join == -2 {
		return r
	}
	// collect blocks reachable from bi without passing join
	seen := map[int]bool{}
	var order []int
	onstk := map[int]bool{}
	cyc := false
	var visit func(x int)
	visit = func(x int) {
		if x == join || seen[x] {
			return
		}
		if x == bi {
			cyc = true
			return
		}
		seen[x] = true
		onstk[x] = true
		for _, s := range fi.blocks[x].succs {
			if onstk[s] || s == bi {
				cyc = true
			}
			visit(s)
		}
		onstk[x] = false
		order = append(order, x)
	}
	for _, s := range b.succs {
		visit(s)
	}
	if cyc || len(order) > 40 {
		return r
	}
	for i := len(order) - 1; i >= 0; i-- {
		r.blocks = append(r.blocks, order[i])
	}
	for _, x := range r.blocks {
		for i := range fi.blocks[x].body {
			if !m.staticPure(&fi.blocks[x].body[i]) {
				return r
			}
		}
	}
	// function results that are merged must be scalars or strings
	r.join = join
	r.ok = true
	return r
}

func (m *Machine) staticPure(ci *cinstr) bool {
	switch ci.k {
	case kBinOp, kUnOp, kChangeType, kChangeInterface, kConvert, kSlice, kFieldAddr, kField, kIndexAddr, kIndex, kExtract, kJump, kIf, kReturn, kLookup, kTypeAssert, kMakeInterface:
		return true
	case kCall:
		if ci.builtin != "" {
			return ci.builtin == "len" || ci.builtin == "cap" || ci.builtin == "min" || ci.builtin == "max"
		}
		if ci.pend == nil {
			return false
		}
		return m.pureFn(m.info(ci.pend))
	}
	return false
}

// pureFn tells whether every instruction of fi (and its callees) may be executed speculatively.
func (m *Machine) pureFn(fi *fnInfo) bool {
	switch fi.purity {
	case 2:
		return true
	case 1, 3:
		return false
	}
	if fi.intr != nil {
		if fi.intrPure {
			fi.purity = 2
			return true
		}
		fi.purity = 3
		return false
	}
	if len(fi.fn.Blocks) == 0 || len(fi.fn.Blocks) > 60 {
		fi.purity = 3
		return false
	}
	fi.purity = 1
	if !fi.compiled {
		m.compile(fi)
		m.st.Funcs[fi.name] = true
	}
	ok := true
	if fi.hasDefer {
		ok = false
	}
	for i := range fi.blocks {
		if !ok {
			break
		}
		for k := range fi.blocks[i].body {
			ci := &fi.blocks[i].body[k]
			if ci.k == kPanic {
				continue
			}
			if !m.staticPure(ci) {
				ok = false
				break
			}
		}
	}
	if ok {
		fi.purity = 2
	} else {
		fi.purity = 3
	}
	return ok
}

// postdoms returns the immediate post-dominator of every block: -1 is the virtual exit, -2 none.
func (m *Machine) postdoms(fi *fnInfo) []int {
	if p, ok := m.pdoms[fi]; ok {
		return p
	}
	n := len(fi.blocks)
	exit := n
	// order by DFS on the reversed graph from exit
	rpreds := make([][]int, n+1) // successors in the original graph
	rsuccs := make([][]int, n+1)
	for i := range fi.blocks {
		if len(fi.blocks[i].succs) == 0 {
			rpreds[i] = []int{exit}
			rsuccs[exit] = append(rsuccs[exit], i)
			continue
		}
		for _, s := range fi.blocks[i].succs {
			rpreds[i] = append(rpreds[i], s)
			rsuccs[s] = append(rsuccs[s], i)
		}
	}
	post := make([]int, n+1)
	for i := range post {
		post[i] = -1
	}
	var order []int
	var dfs func(x int)
	dfs = func(x int) {
		post[x] = -3
		for _, s := range rsuccs[x] {
			if post[s] == -1 {
				dfs(s)
			}
		}
		post[x] = len(order)
		order = append(order, x)
	}
	dfs(exit)
	idom := make([]int, n+1)
	for i := range idom {
		idom[i] = -9
	}
	idom[exit] = exit
	for changed := true; changed; {
		changed = false
		for k := len(order) - 1; k >= 0; k-- {
			x := order[k]
			if x == exit {
				continue
			}
			nd := -9
			for _, p := range rpreds[x] {
				if idom[p] == -9 {
					continue
				}
				if nd == -9 {
					nd = p
					continue
				}
				a, b := p, nd
				for a != b {
					for post[a] < post[b] {
						a = idom[a]
					}
					for post[b] < post[a] {
						b = idom[b]
					}
				}
				nd = a
			}
			if nd != idom[x] {
				idom[x] = nd
				changed = true
			}
		}
	}
	res := make([]int, n)
	for i := range res {
		switch {
		case idom[i] == -9:
			res[i] = -2
		case idom[i] == exit:
			res[i] = -1
		default:
			res[i] = idom[i]
		}
	}
	m.pdoms[fi] = res
	return res
}

type mergeEdge struct {
	from int
	cond *Term
}

// tryMerge executes both sides of an undecided branch and joins the results with ite terms.
// It reports the join block (or -1 and the merged result for the function exit).
func (m *Machine) tryMerge(f *frame, bi int, cond *Term) (join int, ret Value, ok bool) {
	if m.initing > 0 {
		return 0, nil, false
	}
	r := m.buildRegion(f.fi, bi)
	if !r.ok {
		return 0, nil, false
	}
	if m.spec > 0 {
		m.spec++
		j, v := m.mergeRegion(f, bi, r, cond)
		m.spec--
		return j, v, true
	}
	depth, stk, np := m.depth, len(m.callStk), len(m.panicking)
	func() {
		defer func() {
			if x := recover(); x != nil {
				if _, is := x.(specFail); !is {
					panic(x)
				}
				m.spec = 0
				m.depth = depth
				m.callStk = m.callStk[:stk]
				m.panicking = m.panicking[:np]
				ok = false
			}
		}()
		m.spec = 1
		join, ret = m.mergeRegion(f, bi, r, cond)
		m.spec = 0
		ok = true
	}()
	if !ok {
		m.st.MergeFail++
	}
	return
}

func (m *Machine) mergeRegion(f *frame, bi int, r *region, cond *Term) (int, Value) {
	fi := f.fi
	c := m.c
	edges := map[int][]mergeEdge{}
	b0 := &fi.blocks[bi]
	addE := func(from, to int, t *Term) {
		if t.isFalse() {
			return
		}
		es := edges[to]
		for i := range es {
			if es[i].from == from { // both branches to the same block
				es[i].cond = c.Or(es[i].cond, t)
				return
			}
		}
		edges[to] = append(es, mergeEdge{from, t})
	}
	addE(bi, b0.succs[0], cond)
	addE(bi, b0.succs[1], c.Not(cond))
	var rets []Value
	var retConds []*Term
	phis := func(x int) {
		b := &fi.blocks[x]
		if len(b.phis) == 0 {
			return
		}
		vals := make([]Value, len(b.phis))
		es := edges[x]
		for i := range b.phis {
			var v Value
			for k := len(es) - 1; k >= 0; k-- {
				pi := 0
				for q, p := range b.preds {
					if p == es[k].from {
						pi = q
						break
					}
				}
				w := m.get(f, &b.phis[i].ops[pi])
				if k == len(es)-1 {
					v = w
				} else {
					v = m.iteVal(es[k].cond, w, v)
				}
			}
			vals[i] = v
		}
		for i := range b.phis {
			f.regs[b.phis[i].dst] = vals[i]
		}
	}
	for _, x := range r.blocks {
		es := edges[x]
		if len(es) == 0 {
			continue
		}
		bc := c.F
		for _, e := range es {
			bc = c.Or(bc, e.cond)
		}
		if v, ok := m.knownCond(bc); ok && !v {
			continue
		}
		phis(x)
		b := &fi.blocks[x]
		for i := range b.body {
			ci := &b.body[i]
			m.steps++
			switch ci.k {
			case kJump:
				addE(x, b.succs[0], bc)
			case kIf:
				t := m.get(f, &ci.ops[0]).(*Term)
				if v, ok := m.knownCond(t); ok {
					t = c.Bool(v)
				}
				addE(x, b.succs[0], c.And(bc, t))
				addE(x, b.succs[1], c.And(bc, c.Not(t)))
			case kReturn:
				var v Value
				switch len(ci.ops) {
				case 0:
				case 1:
					v = m.get(f, &ci.ops[0])
				default:
					tp := make(tupleV, len(ci.ops))
					for k := range ci.ops {
						tp[k] = m.get(f, &ci.ops[k])
					}
					v = tp
				}
				rets = append(rets, v)
				retConds = append(retConds, bc)
			case kPanic:
				panic(specFail{})
			default:
				m.step(f, ci)
			}
		}
	}
	if r.join >= 0 {
		if len(rets) > 0 {
			panic(specFail{})
		}
		phis(r.join)
		return r.join, nil
	}
	if len(rets) == 0 {
		panic(specFail{})
	}
	v := rets[len(rets)-1]
	for k := len(rets) - 2; k >= 0; k-- {
		v = m.iteVal(retConds[k], rets[k], v)
	}
	return -1, v
}

// iteVal joins two values; it abandons the merge if they cannot be joined.
func (m *Machine) iteVal(cond *Term, a, b Value) Value {
	switch x := a.(type) {
	case nil:
		if b == nil {
			return nil
		}
	case *Term:
		if y, ok := b.(*Term); ok && x.w == y.w {
			return m.c.Ite(cond, x, y)
		}
	case *Str:
		if y, ok := b.(*Str); ok {
			if r := m.c.iteStr(cond, x, y); r != nil {
				return r
			}
		}
	case Ptr:
		if y, ok := b.(Ptr); ok && x == y {
			return x
		}
	case ifaceV:
		if y, ok := b.(ifaceV); ok {
			if x.t == nil && y.t == nil {
				return x
			}
			if x.t != nil && y.t != nil && m.prog.identical(x.t, y.t) {
				return ifaceV{t: x.t, v: m.iteVal(cond, x.v, y.v)}
			}
		}
	case tupleV:
		if y, ok := b.(tupleV); ok && len(x) == len(y) {
			r := make(tupleV, len(x))
			for i := range x {
				r[i] = m.iteVal(cond, x[i], y[i])
			}
			return r
		}
	case structV:
		if y, ok := b.(structV); ok && len(x) == len(y) {
			r := make(structV, len(x))
			for i := range x {
				r[i] = m.iteVal(cond, x[i], y[i])
			}
			return r
		}
	case sliceV:
		if y, ok := b.(sliceV); ok {
			if x.a == nil && y.a == nil {
				return x
			}
			if len(x.a) == len(y.a) && len(x.a) > 0 && &x.a[0] == &y.a[0] && cap(x.a) == cap(y.a) {
				return x
			}
		}
	case float64:
		if y, ok := b.(float64); ok && x == y {
			return x
		}
	case *closure:
		if y, ok := b.(*closure); ok && x == y {
			return x
		}
	case *mapObj:
		if y, ok := b.(*mapObj); ok && x == y {
			return x
		}
	}
	panic(specFail{})
}

var _ ssa.Value
