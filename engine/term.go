package main

import (
	"fmt"
	"math/bits"
	"strconv"
	"strings"
)

// Op is a term operator.
type Op uint8

const (
	OpConst Op = iota // bool (w=0) or bit-vector constant
	OpVar
	OpNot
	OpAnd
	OpOr
	OpIte
	OpEq
	OpUlt
	OpUle
	OpSlt
	OpSle
	OpAdd
	OpSub
	OpMul
	OpUdiv
	OpUrem
	OpSdiv
	OpSrem
	OpBvAnd
	OpBvOr
	OpBvXor
	OpShl
	OpLshr
	OpAshr
	OpBvNot
	OpNeg
	OpZext
	OpSext
	OpTrunc
)

var opName = map[Op]string{OpNot: "not", OpAnd: "and", OpOr: "or", OpIte: "ite", OpEq: "=", OpUlt: "bvult", OpUle: "bvule", OpSlt: "bvslt", OpSle: "bvsle",
	OpAdd: "bvadd", OpSub: "bvsub", OpMul: "bvmul", OpUdiv: "bvudiv", OpUrem: "bvurem", OpSdiv: "bvsdiv", OpSrem: "bvsrem", OpBvAnd: "bvand", OpBvOr: "bvor", OpBvXor: "bvxor",
	OpShl: "bvshl", OpLshr: "bvlshr", OpAshr: "bvashr", OpBvNot: "bvnot", OpNeg: "bvneg"}

// tset is a set of 8-bit values.
type tset [4]uint64

func (s *tset) has(v uint64) bool { return s[v>>6]&(1<<(v&63)) != 0 }
func (s *tset) add(v uint64)      { s[v>>6] |= 1 << (v & 63) }
func (s tset) and(o tset) tset    { return tset{s[0] & o[0], s[1] & o[1], s[2] & o[2], s[3] & o[3]} }
func (s tset) not() tset          { return tset{^s[0], ^s[1], ^s[2], ^s[3]} }
func (s tset) empty() bool        { return s == tset{} }
func (s tset) count() int {
	return bits.OnesCount64(s[0]) + bits.OnesCount64(s[1]) + bits.OnesCount64(s[2]) + bits.OnesCount64(s[3])
}

var fullSet = tset{^uint64(0), ^uint64(0), ^uint64(0), ^uint64(0)}

// Term is a hash-consed SMT term. w==0 means Bool, otherwise a bit-vector of width w (<=64).
type Term struct {
	op   Op
	w    uint8
	id   int32
	val  uint64
	args []*Term
	name string // variables

	uvar  *Term // the only variable of this term, when it has exactly one and that has width<=8
	multi bool  // more than one variable (or a wide one)
	tbl   *tset // truth table of a unary Bool term

	evGen int32
	ev    uint64

	defined int32 // solver generation in which a definition was emitted
}

func (t *Term) isConst() bool { return t.op == OpConst }
func (t *Term) isTrue() bool  { return t.op == OpConst && t.w == 0 && t.val == 1 }
func (t *Term) isFalse() bool { return t.op == OpConst && t.w == 0 && t.val == 0 }

type tkey struct {
	op      Op
	w       uint8
	val     uint64
	a, b, c int32
	name    string
}

// Ctx owns terms. Not safe for concurrent use.
type Ctx struct {
	tab   map[tkey]*Term
	nary  map[string]*Term
	next  int32
	T, F  *Term
	small [65][]*Term
	gen   int32
	model map[*Term]uint64
	vars  map[string]*Term
	eqOf  map[*Term][2]eqKey // equations between whole strings
}

func newCtx() *Ctx {
	c := &Ctx{tab: map[tkey]*Term{}, nary: map[string]*Term{}, vars: map[string]*Term{}, eqOf: map[*Term][2]eqKey{}, gen: 1}
	c.F = c.intern(&Term{op: OpConst, w: 0, val: 0})
	c.T = c.intern(&Term{op: OpConst, w: 0, val: 1})
	return c
}

func (c *Ctx) intern(t *Term) *Term {
	k := tkey{op: t.op, w: t.w, val: t.val, name: t.name, a: -1, b: -1, c: -1}
	if len(t.args) > 3 {
		var sb strings.Builder
		sb.WriteByte(byte(t.op))
		for _, a := range t.args {
			sb.WriteString(strconv.Itoa(int(a.id)))
			sb.WriteByte(',')
		}
		s := sb.String()
		if x, ok := c.nary[s]; ok {
			return x
		}
		c.nary[s] = t
	} else {
		if len(t.args) > 0 {
			k.a = t.args[0].id
		}
		if len(t.args) > 1 {
			k.b = t.args[1].id
		}
		if len(t.args) > 2 {
			k.c = t.args[2].id
		}
		if x, ok := c.tab[k]; ok {
			return x
		}
		c.tab[k] = t
	}
	t.id = c.next
	c.next++
	if t.op == OpVar {
		if t.w <= 8 {
			t.uvar = t
		} else {
			t.multi = true
		}
	}
	for _, a := range t.args {
		if a.multi {
			t.multi = true
		} else if a.uvar != nil {
			if t.uvar == nil {
				t.uvar = a.uvar
			} else if t.uvar != a.uvar {
				t.multi = true
			}
		}
	}
	if t.multi {
		t.uvar = nil
	}
	return t
}

func mask(w uint8) uint64 {
	if w >= 64 {
		return ^uint64(0)
	}
	return 1<<w - 1
}

func sext64(v uint64, w uint8) int64 {
	if w >= 64 {
		return int64(v)
	}
	sh := 64 - w
	return int64(v<<sh) >> sh
}

// Const returns a bit-vector constant.
func (c *Ctx) Const(w uint8, v uint64) *Term {
	v &= mask(w)
	if v < 1024 {
		s := c.small[w]
		if s == nil {
			s = make([]*Term, 1024)
			c.small[w] = s
		}
		if s[v] == nil {
			s[v] = c.intern(&Term{op: OpConst, w: w, val: v})
		}
		return s[v]
	}
	k := tkey{op: OpConst, w: w, val: v, a: -1, b: -1, c: -1}
	if x, ok := c.tab[k]; ok {
		return x
	}
	return c.intern(&Term{op: OpConst, w: w, val: v})
}

func (c *Ctx) Bool(b bool) *Term {
	if b {
		return c.T
	}
	return c.F
}

// Var returns the variable of that name; the name must determine the width.
func (c *Ctx) Var(name string, w uint8) *Term {
	if v, ok := c.vars[name]; ok {
		if v.w != w {
			panic("variable width clash " + name)
		}
		return v
	}
	v := c.intern(&Term{op: OpVar, w: w, name: name})
	c.vars[name] = v
	return v
}

// table returns the truth table of a unary Bool term (nil if not unary).
func (c *Ctx) table(t *Term) *tset {
	if t.uvar == nil || t.w != 0 {
		return nil
	}
	if t.tbl != nil {
		return t.tbl
	}
	var s tset
	n := uint64(1) << t.uvar.w
	if t.uvar.w == 0 {
		n = 2
	}
	switch t.op {
	case OpNot:
		if at := c.table(t.args[0]); at != nil {
			s = at.not().and(domainOf(t.uvar))
			t.tbl = &s
			return t.tbl
		}
	case OpAnd:
		s = domainOf(t.uvar)
		for _, a := range t.args {
			s = s.and(*c.table(a))
		}
		t.tbl = &s
		return t.tbl
	case OpOr:
		for _, a := range t.args {
			at := c.table(a)
			for i := range s {
				s[i] |= at[i]
			}
		}
		t.tbl = &s
		return t.tbl
	}
	for v := uint64(0); v < n; v++ {
		if evalUnary(t, v) != 0 {
			s.add(v)
		}
	}
	t.tbl = &s
	return t.tbl
}

func domainOf(v *Term) tset {
	if v.w == 8 {
		return fullSet
	}
	n := 1 << v.w
	if v.w == 0 {
		n = 2
	}
	var s tset
	for i := 0; i < n; i++ {
		s.add(uint64(i))
	}
	return s
}

// evalUnary evaluates a term whose only variable has value v (no memo; such terms are small).
func evalUnary(t *Term, v uint64) uint64 {
	switch t.op {
	case OpConst:
		return t.val
	case OpVar:
		return v
	}
	var a, b, d uint64
	switch t.op {
	case OpIte:
		if evalUnary(t.args[0], v) != 0 {
			return evalUnary(t.args[1], v)
		}
		return evalUnary(t.args[2], v)
	case OpAnd:
		for _, x := range t.args {
			if evalUnary(x, v) == 0 {
				return 0
			}
		}
		return 1
	case OpOr:
		for _, x := range t.args {
			if evalUnary(x, v) != 0 {
				return 1
			}
		}
		return 0
	}
	if len(t.args) > 0 {
		a = evalUnary(t.args[0], v)
	}
	if len(t.args) > 1 {
		b = evalUnary(t.args[1], v)
	}
	_ = d
	return applyOp(t.op, t.w, t.args, a, b)
}

func b2u(b bool) uint64 {
	if b {
		return 1
	}
	return 0
}

func applyOp(op Op, w uint8, args []*Term, a, b uint64) uint64 {
	var aw uint8
	if len(args) > 0 {
		aw = args[0].w
	}
	return applyOpW(op, w, aw, a, b)
}

func applyOpW(op Op, w, aw uint8, a, b uint64) uint64 {
	switch op {
	case OpNot:
		return 1 - a
	case OpEq:
		return b2u(a == b)
	case OpUlt:
		return b2u(a < b)
	case OpUle:
		return b2u(a <= b)
	case OpSlt:
		return b2u(sext64(a, aw) < sext64(b, aw))
	case OpSle:
		return b2u(sext64(a, aw) <= sext64(b, aw))
	case OpAdd:
		return (a + b) & mask(w)
	case OpSub:
		return (a - b) & mask(w)
	case OpMul:
		return (a * b) & mask(w)
	case OpUdiv:
		if b == 0 {
			return mask(w)
		}
		return a / b
	case OpUrem:
		if b == 0 {
			return a
		}
		return a % b
	case OpSdiv:
		x, y := sext64(a, w), sext64(b, w)
		if y == 0 {
			if x < 0 {
				return 1
			}
			return mask(w)
		}
		if y == -1 {
			return uint64(-x) & mask(w)
		}
		return uint64(x/y) & mask(w)
	case OpSrem:
		x, y := sext64(a, w), sext64(b, w)
		if y == 0 {
			return a
		}
		if y == -1 {
			return 0
		}
		return uint64(x%y) & mask(w)
	case OpBvAnd:
		return a & b
	case OpBvOr:
		return a | b
	case OpBvXor:
		return a ^ b
	case OpShl:
		if b >= uint64(w) {
			return 0
		}
		return (a << b) & mask(w)
	case OpLshr:
		if b >= uint64(w) {
			return 0
		}
		return a >> b
	case OpAshr:
		x := sext64(a, w)
		if b >= uint64(w) {
			b = 63
		}
		return uint64(x>>b) & mask(w)
	case OpBvNot:
		return ^a & mask(w)
	case OpNeg:
		return (-a) & mask(w)
	case OpZext:
		return a
	case OpSext:
		return uint64(sext64(a, aw)) & mask(w)
	case OpTrunc:
		return a & mask(w)
	}
	panic(fmt.Sprint("applyOp ", op))
}

// setModel installs a model for Eval.
func (c *Ctx) setModel(m map[*Term]uint64) { c.model = m; c.gen++ }

// Eval evaluates t under the installed model (missing variables are 0).
func (c *Ctx) Eval(t *Term) uint64 {
	if t.op == OpConst {
		return t.val
	}
	if t.evGen == c.gen {
		return t.ev
	}
	var r uint64
	switch t.op {
	case OpVar:
		r = c.model[t]
	case OpIte:
		if c.Eval(t.args[0]) != 0 {
			r = c.Eval(t.args[1])
		} else {
			r = c.Eval(t.args[2])
		}
	case OpAnd:
		r = 1
		for _, a := range t.args {
			if c.Eval(a) == 0 {
				r = 0
				break
			}
		}
	case OpOr:
		for _, a := range t.args {
			if c.Eval(a) != 0 {
				r = 1
				break
			}
		}
	default:
		var a, b uint64
		a = c.Eval(t.args[0])
		if len(t.args) > 1 {
			b = c.Eval(t.args[1])
		}
		r = applyOp(t.op, t.w, t.args, a, b)
	}
	t.evGen = c.gen
	t.ev = r
	return r
}

func (c *Ctx) mk(op Op, w uint8, args ...*Term) *Term {
	t := c.intern(&Term{op: op, w: w, args: args})
	if w == 0 && t.uvar != nil && t.op != OpVar {
		tb := c.table(t)
		if tb.empty() {
			return c.F
		}
		if *tb == domainOf(t.uvar) {
			return c.T
		}
	}
	return t
}

func (c *Ctx) Not(a *Term) *Term {
	switch {
	case a.isTrue():
		return c.F
	case a.isFalse():
		return c.T
	case a.op == OpNot:
		return a.args[0]
	}
	return c.mk(OpNot, 0, a)
}

func (c *Ctx) And(ts ...*Term) *Term { return c.andor(OpAnd, ts) }
func (c *Ctx) Or(ts ...*Term) *Term  { return c.andor(OpOr, ts) }

func (c *Ctx) andor(op Op, ts []*Term) *Term {
	unit, zero := c.T, c.F
	if op == OpOr {
		unit, zero = c.F, c.T
	}
	var out []*Term
	seen := map[*Term]bool{}
	var addt func(t *Term) bool
	addt = func(t *Term) bool {
		if t == unit || seen[t] {
			return true
		}
		if t == zero {
			return false
		}
		if _, whole := c.eqOf[t]; t.op == op && !whole {
			for _, a := range t.args {
				if !addt(a) {
					return false
				}
			}
			return true
		}
		if t.op == OpNot && seen[t.args[0]] {
			return false
		}
		seen[t] = true
		out = append(out, t)
		return true
	}
	for _, t := range ts {
		if !addt(t) {
			return zero
		}
	}
	for _, t := range out {
		if t.op == OpNot && seen[t.args[0]] {
			return zero
		}
	}
	if len(out) == 0 {
		return unit
	}
	if len(out) == 1 {
		return out[0]
	}
	return c.mk(op, 0, out...)
}

func (c *Ctx) Ite(cond, a, b *Term) *Term {
	switch {
	case cond.isTrue():
		return a
	case cond.isFalse():
		return b
	case a == b:
		return a
	}
	if a.w == 0 {
		if a.isTrue() && b.isFalse() {
			return cond
		}
		if a.isFalse() && b.isTrue() {
			return c.Not(cond)
		}
		if a.isTrue() {
			return c.Or(cond, b)
		}
		if a.isFalse() {
			return c.And(c.Not(cond), b)
		}
		if b.isTrue() {
			return c.Or(c.Not(cond), a)
		}
		if b.isFalse() {
			return c.And(cond, a)
		}
	}
	if cond.op == OpNot {
		return c.Ite(cond.args[0], b, a)
	}
	if b.op == OpIte && b.args[0] == cond {
		b = b.args[2]
	}
	if a.op == OpIte && a.args[0] == cond {
		a = a.args[1]
	}
	if a == b {
		return a
	}
	return c.mk(OpIte, a.w, cond, a, b)
}

func (c *Ctx) Eq(a, b *Term) *Term {
	if a == b {
		return c.T
	}
	if a.isConst() && b.isConst() {
		return c.Bool(a.val == b.val)
	}
	if a.isConst() {
		a, b = b, a
	}
	if a.w == 0 {
		if b.isTrue() {
			return a
		}
		if b.isFalse() {
			return c.Not(a)
		}
	}
	if b.isConst() {
		switch a.op {
		case OpZext:
			if b.val > mask(a.args[0].w) {
				return c.F
			}
			return c.Eq(a.args[0], c.Const(a.args[0].w, b.val))
		case OpSext:
			lo := b.val & mask(a.args[0].w)
			if uint64(sext64(lo, a.args[0].w))&mask(a.w) != b.val {
				return c.F
			}
			return c.Eq(a.args[0], c.Const(a.args[0].w, lo))
		case OpAdd:
			if a.args[1].isConst() {
				return c.Eq(a.args[0], c.Const(a.w, b.val-a.args[1].val))
			}
		case OpIte:
			x, y := a.args[1], a.args[2]
			if x.isConst() || y.isConst() {
				return c.Ite(a.args[0], c.Eq(x, b), c.Eq(y, b))
			}
		}
	}
	if a.op == OpAdd && b.op == OpAdd && a.args[1].isConst() && a.args[1] == b.args[1] {
		return c.Eq(a.args[0], b.args[0])
	}
	if a.op == OpZext && b.op == OpZext && a.args[0].w == b.args[0].w {
		return c.Eq(a.args[0], b.args[0])
	}
	if a.id > b.id && !b.isConst() {
		a, b = b, a
	}
	return c.mk(OpEq, 0, a, b)
}

func (c *Ctx) cmp(op Op, a, b *Term) *Term {
	if a.isConst() && b.isConst() {
		return c.Bool(applyOpW(op, 0, a.w, a.val, b.val) != 0)
	}
	if a == b {
		return c.Bool(op == OpUle || op == OpSle)
	}
	// comparisons of zero-extended values are unsigned comparisons of the narrow ones
	if (op == OpSlt || op == OpSle) && a.w > 1 {
		az, bz := nonneg(a), nonneg(b)
		if az && bz {
			if op == OpSlt {
				op = OpUlt
			} else {
				op = OpUle
			}
		}
	}
	if op == OpUlt || op == OpUle {
		if a.op == OpZext && b.isConst() {
			m := mask(a.args[0].w)
			if b.val > m {
				return c.T
			}
			return c.cmp(op, a.args[0], c.Const(a.args[0].w, b.val))
		}
		if b.op == OpZext && a.isConst() {
			m := mask(b.args[0].w)
			if a.val > m {
				return c.F
			}
			return c.cmp(op, c.Const(b.args[0].w, a.val), b.args[0])
		}
		if a.op == OpZext && b.op == OpZext && a.args[0].w == b.args[0].w {
			return c.cmp(op, a.args[0], b.args[0])
		}
		if op == OpUlt && b.isConst() && b.val == 0 {
			return c.F
		}
		if op == OpUle && a.isConst() && a.val == 0 {
			return c.T
		}
	}
	return c.mk(op, 0, a, b)
}

func nonneg(t *Term) bool {
	switch t.op {
	case OpConst:
		return t.val>>(t.w-1) == 0
	case OpZext:
		return t.args[0].w < t.w
	case OpIte:
		return nonneg(t.args[1]) && nonneg(t.args[2])
	}
	return false
}

// Bin builds a bit-vector binary operation.
func (c *Ctx) Bin(op Op, a, b *Term) *Term {
	if a.isConst() && b.isConst() {
		return c.Const(a.w, applyOpW(op, a.w, a.w, a.val, b.val))
	}
	switch op {
	case OpAdd:
		if a.isConst() {
			a, b = b, a
		}
		if b.isConst() {
			if b.val == 0 {
				return a
			}
			if a.op == OpAdd && a.args[1].isConst() {
				return c.Bin(OpAdd, a.args[0], c.Const(a.w, a.args[1].val+b.val))
			}
		}
	case OpSub:
		if b.isConst() {
			return c.Bin(OpAdd, a, c.Const(a.w, -b.val))
		}
		if a == b {
			return c.Const(a.w, 0)
		}
	case OpMul:
		if a.isConst() {
			a, b = b, a
		}
		if b.isConst() {
			if b.val == 0 {
				return b
			}
			if b.val == 1 {
				return a
			}
		}
	case OpBvAnd, OpBvOr, OpBvXor:
		if a.isConst() {
			a, b = b, a
		}
		if b.isConst() {
			if op == OpBvAnd && b.val == 0 {
				return b
			}
			if op == OpBvAnd && b.val == mask(a.w) {
				return a
			}
			if op != OpBvAnd && b.val == 0 {
				return a
			}
		}
		if a == b {
			if op == OpBvXor {
				return c.Const(a.w, 0)
			}
			return a
		}
	case OpShl, OpLshr, OpAshr:
		if b.isConst() && b.val == 0 {
			return a
		}
	}
	return c.mk(op, a.w, a, b)
}

func (c *Ctx) Un(op Op, a *Term) *Term {
	if a.isConst() {
		return c.Const(a.w, applyOpW(op, a.w, a.w, a.val, 0))
	}
	return c.mk(op, a.w, a)
}

// Resize converts a bit-vector to width w, sign-extending if signed.
func (c *Ctx) Resize(a *Term, w uint8, signed bool) *Term {
	if a.w == w {
		return a
	}
	if a.isConst() {
		if w > a.w && signed {
			return c.Const(w, uint64(sext64(a.val, a.w)))
		}
		return c.Const(w, a.val)
	}
	if w < a.w {
		if a.op == OpZext || a.op == OpSext {
			if a.args[0].w == w {
				return a.args[0]
			}
			if a.args[0].w < w {
				return c.Resize(a.args[0], w, a.op == OpSext)
			}
		}
		return c.mk(OpTrunc, w, a)
	}
	if signed {
		if a.op == OpZext {
			return c.Resize(a.args[0], w, false)
		}
		return c.mk(OpSext, w, a)
	}
	if a.op == OpZext {
		return c.Resize(a.args[0], w, false)
	}
	return c.mk(OpZext, w, a)
}

func sortName(w uint8) string {
	if w == 0 {
		return "Bool"
	}
	return fmt.Sprintf("(_ BitVec %d)", w)
}

// ref is the SMT-LIB reference to a term.
func (t *Term) ref() string {
	switch t.op {
	case OpConst:
		if t.w == 0 {
			if t.val == 1 {
				return "true"
			}
			return "false"
		}
		return fmt.Sprintf("(_ bv%d %d)", t.val, t.w)
	case OpVar:
		return "|" + t.name + "|"
	}
	return "t" + strconv.Itoa(int(t.id))
}

// body is the SMT-LIB application of a non-leaf term.
func (t *Term) body() string {
	var sb strings.Builder
	sb.WriteByte('(')
	switch t.op {
	case OpZext:
		fmt.Fprintf(&sb, "(_ zero_extend %d)", t.w-t.args[0].w)
	case OpSext:
		fmt.Fprintf(&sb, "(_ sign_extend %d)", t.w-t.args[0].w)
	case OpTrunc:
		fmt.Fprintf(&sb, "(_ extract %d 0)", t.w-1)
	default:
		sb.WriteString(opName[t.op])
	}
	for _, a := range t.args {
		sb.WriteByte(' ')
		sb.WriteString(a.ref())
	}
	sb.WriteByte(')')
	return sb.String()
}
