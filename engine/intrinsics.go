package main

import (
	"fmt"
	"go/types"
	"math"
	"math/bits"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

type intrinsic struct {
	f    func(m *Machine, fi *fnInfo, a []Value) Value
	pure bool
}

var intrinsics map[string]intrinsic
var initValues map[string]func(m *Machine) Value

// body runs the real body of an intercepted function.
func (m *Machine) body(fi *fnInfo, args []Value) Value {
	in := fi.intr
	fi.intr = nil
	defer func() { fi.intr = in }()
	return m.call(fi, args, nil)
}

func (m *Machine) bool(t Value) bool { return m.branch(t.(*Term)) }

func (m *Machine) goStr(v Value) string {
	s := v.(*Str)
	if s.isConc {
		return s.conc
	}
	b := m.fixLen(s)
	bs := make([]byte, len(b))
	for i, t := range b {
		bs[i] = byte(m.concretize(t))
	}
	return string(bs)
}

func (m *Machine) goInt(v Value) int64 {
	t := v.(*Term)
	return sext64(m.concretize(t), t.w)
}

func (m *Machine) i64(v int64) *Term { return m.c.Const(64, uint64(v)) }

func fieldPtr(p Value, path ...int) Ptr {
	x := p.(Ptr)
	for _, i := range path {
		s := (*x).(structV)
		x = &s[i]
	}
	return x
}

func (m *Machine) newError(s *Str) Value {
	return m.call(m.info(m.prog.fn("errors", "New")), []Value{s}, nil)
}

func (m *Machine) isASCII(b []*Term) bool {
	lim := m.c.Const(8, 0x80)
	for _, t := range b {
		if v, ok := m.knownCond(m.c.cmp(OpUlt, t, lim)); !ok || !v {
			return false
		}
	}
	return true
}

func (m *Machine) mapCase(s *Str, upper bool) *Str {
	c := m.c
	one := func(b *Term) *Term {
		lo, hi := uint64('a'), uint64('z')
		if !upper {
			lo, hi = 'A', 'Z'
		}
		in := c.And(c.cmp(OpUle, c.Const(8, lo), b), c.cmp(OpUle, b, c.Const(8, hi)))
		return c.Ite(in, c.Bin(OpBvXor, b, c.Const(8, 0x20)), b)
	}
	var segs []seg
	for _, g := range c.segsOf(s) {
		if g.kind == segItoa {
			segs = append(segs, g)
			continue
		}
		if !m.isASCII(g.bytes) {
			return nil
		}
		nb := make([]*Term, len(g.bytes))
		for i, b := range g.bytes {
			nb[i] = one(b)
		}
		segs = append(segs, seg{kind: g.kind, n: g.n, bytes: nb})
	}
	return c.mkStr(segs)
}

// quoteASCII is strconv.Quote of an ASCII string; nil if it may not be ASCII.
func (m *Machine) quoteASCII(s *Str) *Str {
	c := m.c
	k8 := func(v uint64) *Term { return c.Const(8, v) }
	var segs []seg
	q := seg{kind: segBytes, bytes: []*Term{k8('"')}}
	segs = append(segs, q)
	for _, g := range c.segsOf(s) {
		if g.kind == segItoa {
			segs = append(segs, g)
			continue
		}
		if !m.isASCII(g.bytes) {
			return nil
		}
		for i, b := range g.bytes {
			in := c.T
			if g.kind == segAtom {
				in = c.cmp(OpUlt, c.Const(64, uint64(i)), g.n)
			}
			two, esc := c.F, k8(0)
			for _, e := range [][2]byte{{'"', '"'}, {'\\', '\\'}, {7, 'a'}, {8, 'b'}, {12, 'f'}, {10, 'n'}, {13, 'r'}, {9, 't'}, {11, 'v'}} {
				is := c.Eq(b, k8(uint64(e[0])))
				two = c.Or(two, is)
				esc = c.Ite(is, k8(uint64(e[1])), esc)
			}
			plain := c.And(c.cmp(OpUle, k8(0x20), b), c.cmp(OpUlt, b, k8(0x7f)), c.Not(two))
			hex := func(d *Term) *Term {
				return c.Ite(c.cmp(OpUlt, d, k8(10)), c.Bin(OpAdd, d, k8('0')), c.Bin(OpAdd, d, k8('a'-10)))
			}
			z := k8(0)
			n := c.Ite(plain, c.Const(64, 1), c.Ite(two, c.Const(64, 2), c.Const(64, 4)))
			bs := []*Term{
				c.Ite(plain, b, k8('\\')),
				c.Ite(plain, z, c.Ite(two, esc, k8('x'))),
				c.Ite(c.Or(plain, two), z, hex(c.Bin(OpLshr, b, k8(4)))),
				c.Ite(c.Or(plain, two), z, hex(c.Bin(OpBvAnd, b, k8(15)))),
			}
			for j := range bs {
				bs[j] = c.Ite(in, bs[j], z)
			}
			segs = append(segs, seg{kind: segAtom, n: c.Ite(in, n, c.Const(64, 0)), bytes: bs})
		}
	}
	r := c.mkStr(append(segs, q))
	if !r.isConc {
		r.quoted = s
	}
	return r
}

// hasPrefixT is the condition that s starts with p (nil if not expressible).
func (m *Machine) hasPrefixT(s, p *Str) *Term {
	c := m.c
	pb, ok := c.fixed(p)
	if !ok {
		return nil
	}
	if len(pb) == 0 {
		return c.T
	}
	fl := c.flatten(s)
	if fl == nil {
		// the leading fixed piece may be enough
		if !s.isConc && s.segs[0].kind == segBytes && len(s.segs[0].bytes) >= len(pb) {
			fl = &seg{bytes: s.segs[0].bytes, n: c.Const(64, uint64(len(s.segs[0].bytes)))}
		} else {
			return nil
		}
	}
	if len(pb) > len(fl.bytes) {
		return c.F
	}
	conj := []*Term{c.cmp(OpUle, c.Const(64, uint64(len(pb))), fl.n)}
	for i := range pb {
		conj = append(conj, c.Eq(fl.bytes[i], pb[i]))
	}
	return c.And(conj...)
}

func (m *Machine) hasSuffixT(s, p *Str) *Term {
	c := m.c
	pb, ok := c.fixed(p)
	if !ok {
		return nil
	}
	if len(pb) == 0 {
		return c.T
	}
	fl := c.flatten(s)
	if fl == nil {
		return nil
	}
	var disj []*Term
	for l := len(pb); l <= len(fl.bytes); l++ {
		conj := []*Term{c.Eq(fl.n, c.Const(64, uint64(l)))}
		for i := range pb {
			conj = append(conj, c.Eq(fl.bytes[l-len(pb)+i], pb[i]))
		}
		disj = append(disj, c.And(conj...))
	}
	return c.Or(disj...)
}

// containsT is the condition that s contains the fixed string p.
// ropeCount counts the syntactic occurrences of p in s: inner pieces identical, the first
// a suffix and the last a prefix of a piece of s.
func ropeCount(ss, ps []seg) int {
	if len(ps) == 0 {
		return 0
	}
	same := func(a, b []*Term) bool {
		for i := range a {
			if a[i] != b[i] {
				return false
			}
		}
		return true
	}
	n := 0
	if len(ps) == 1 && ps[0].kind == segBytes {
		pb := ps[0].bytes
		for _, g := range ss {
			if g.kind != segBytes {
				continue
			}
			for o := 0; o+len(pb) <= len(g.bytes); o++ {
				if same(pb, g.bytes[o:o+len(pb)]) {
					n++
					o += len(pb) - 1
				}
			}
		}
		return n
	}
	for o := 0; o+len(ps) <= len(ss); o++ {
		ok := true
		for i := range ps {
			a, b := ss[o+i], ps[i]
			switch {
			case b.kind == segBytes && a.kind == segBytes && i == 0 && len(a.bytes) >= len(b.bytes):
				ok = same(b.bytes, a.bytes[len(a.bytes)-len(b.bytes):])
			case b.kind == segBytes && a.kind == segBytes && i == len(ps)-1 && len(a.bytes) >= len(b.bytes):
				ok = same(b.bytes, a.bytes[:len(b.bytes)])
			default:
				ok = sameSeg(a, b)
			}
			if !ok {
				break
			}
		}
		if ok {
			n++
		}
	}
	return n
}

func (m *Machine) containsT(s, p *Str) *Term {
	c := m.c
	if ropeCount(c.segsOf(s), c.segsOf(p)) > 0 {
		return c.T
	}
	fl := c.flatten(s)
	if fl == nil {
		return nil
	}
	pb, ok := c.fixed(p)
	if !ok {
		fp := c.flatten(p)
		if fp == nil || len(fp.bytes)*len(fl.bytes) > 4000 {
			return nil
		}
		var disj []*Term
		for o := 0; o <= len(fl.bytes); o++ {
			conj := []*Term{c.cmp(OpUle, c.Bin(OpAdd, c.Const(64, uint64(o)), fp.n), fl.n)}
			for i := range fp.bytes {
				in := c.cmp(OpUlt, c.Const(64, uint64(i)), fp.n)
				if o+i < len(fl.bytes) {
					conj = append(conj, c.Or(c.Not(in), c.Eq(fl.bytes[o+i], fp.bytes[i])))
				}
			}
			disj = append(disj, c.And(conj...))
		}
		return c.Or(disj...)
	}
	if len(pb) == 0 {
		return c.T
	}
	var disj []*Term
	for o := 0; o+len(pb) <= len(fl.bytes); o++ {
		conj := []*Term{c.cmp(OpUle, c.Const(64, uint64(o+len(pb))), fl.n)}
		for i := range pb {
			conj = append(conj, c.Eq(fl.bytes[o+i], pb[i]))
		}
		disj = append(disj, c.And(conj...))
	}
	return c.Or(disj...)
}

// indexBytes forks over the first position where cond holds.
func (m *Machine) firstIndex(n int, at func(i int) *Term, last bool) int {
	if m.spec > 0 {
		panic(specFail{})
	}
	var conds []*Term
	var pos []int
	none := m.c.T
	for k := 0; k < n; k++ {
		i := k
		if last {
			i = n - 1 - k
		}
		t := at(i)
		if t.isFalse() {
			continue
		}
		conds = append(conds, m.c.And(none, t))
		pos = append(pos, i)
		none = m.c.And(none, m.c.Not(t))
		if t.isTrue() {
			break
		}
	}
	conds = append(conds, none)
	pos = append(pos, -1)
	return pos[m.choose(conds)]
}

func (m *Machine) bytesArg(v Value) []*Term {
	switch x := v.(type) {
	case *Str:
		return m.fixLen(x)
	case sliceV:
		b := make([]*Term, len(x.a))
		for i := range b {
			b[i] = x.a[i].(*Term)
		}
		return b
	}
	m.unsupported("bytes of %T", v)
	return nil
}

func (m *Machine) indexOf(s, p []*Term, last bool) int {
	if len(p) > len(s) {
		return -1
	}
	return m.firstIndex(len(s)-len(p)+1, func(i int) *Term {
		conj := make([]*Term, len(p))
		for k := range p {
			conj[k] = m.c.Eq(s[i+k], p[k])
		}
		return m.c.And(conj...)
	}, last)
}

func (m *Machine) countByte(s []*Term, b *Term) Value {
	r := m.i64(0)
	for _, x := range s {
		e := m.c.Eq(x, b)
		r = m.c.Bin(OpAdd, r, m.c.Ite(e, m.i64(1), m.i64(0)))
	}
	return r
}

// rope access of strings.Builder (field 1 is buf)
func (m *Machine) ropeOf(p Value) *Str {
	if p.(Ptr) == nil {
		m.nilPanic()
	}
	f := fieldPtr(p, 1)
	switch x := (*f).(type) {
	case ropeV:
		return x.s
	case sliceV:
		if len(x.a) == 0 {
			return emptyStr
		}
	}
	m.unsupported("strings.Builder content")
	return nil
}

func (m *Machine) ropeAdd(p Value, s *Str) {
	cur := m.ropeOf(p)
	m.store(fieldPtr(p, 1), ropeV{m.c.concat(cur, s)})
}

func (m *Machine) sliceStr(v Value) *Str {
	return m.c.fixedStr(m.bytesArg(v))
}

// writeOut appends to the captured standard output.
func (m *Machine) writeOut(s *Str) {
	m.stdout = append(m.stdout, m.c.segsOf(s)...)
}

func (m *Machine) writeTo(w ifaceV, s *Str) {
	if p, ok := w.v.(Ptr); ok {
		if p == m.native["os.Stdout"] {
			m.writeOut(s)
			return
		}
		if p == m.native["os.Stderr"] {
			return
		}
	}
	if w.t == nil {
		m.nilPanic()
	}
	if strings.HasSuffix(w.t.String(), "*strings.Builder") {
		m.ropeAdd(w.v, s)
		return
	}
	fi := m.methodByName(w.t, "Write")
	m.call(fi, []Value{w.v, sliceV{a: m.strBytes(s)}}, nil)
}

func (m *Machine) stdFile(name string) Value {
	if v, ok := m.native[name]; ok {
		return v
	}
	ft := m.prog.pkgs["os"].Pkg.Scope().Lookup("File").Type()
	v := m.zero(ft)
	p := Ptr(&v)
	m.native[name] = p
	return p
}

func atomicOps() {
	for _, pk := range []string{"sync/atomic.", "internal/runtime/atomic."} {
		for _, t := range []string{"Int32", "Int64", "Uint32", "Uint64", "Uintptr", "Pointer"} {
			intrinsics[pk+"Load"+t] = intrinsic{func(m *Machine, fi *fnInfo, a []Value) Value { return *a[0].(Ptr) }, false}
			intrinsics[pk+"Store"+t] = intrinsic{func(m *Machine, fi *fnInfo, a []Value) Value { m.assign(a[0].(Ptr), a[1]); return nil }, false}
			intrinsics[pk+"Add"+t] = intrinsic{func(m *Machine, fi *fnInfo, a []Value) Value {
				p := a[0].(Ptr)
				v := m.c.Bin(OpAdd, (*p).(*Term), a[1].(*Term))
				m.assign(p, v)
				return v
			}, false}
			intrinsics[pk+"Swap"+t] = intrinsic{func(m *Machine, fi *fnInfo, a []Value) Value {
				p := a[0].(Ptr)
				old := *p
				m.assign(p, a[1])
				return old
			}, false}
			intrinsics[pk+"CompareAndSwap"+t] = intrinsic{func(m *Machine, fi *fnInfo, a []Value) Value {
				p := a[0].(Ptr)
				if m.branch(m.valEq(*p, a[1])) {
					m.assign(p, a[2])
					return m.c.T
				}
				return m.c.F
			}, false}
		}
	}
}

func noop(m *Machine, fi *fnInfo, a []Value) Value {
	return m.zero(fi.fn.Signature.Results())
}

func init() {
	type F = func(m *Machine, fi *fnInfo, a []Value) Value
	intrinsics = map[string]intrinsic{}
	reg := func(name string, pure bool, f F) { intrinsics[name] = intrinsic{f, pure} }
	atomicOps()

	for _, n := range []string{"(*sync.Mutex).Lock", "(*sync.Mutex).Unlock", "(*sync.RWMutex).Lock", "(*sync.RWMutex).Unlock", "(*sync.RWMutex).RLock", "(*sync.RWMutex).RUnlock",
		"(*sync.Pool).Put", "runtime.KeepAlive", "runtime.SetFinalizer", "os/signal.Notify", "(*strings.Builder).copyCheck", "(*strings.Builder).Grow", "(*sync.WaitGroup).Add", "(*sync.WaitGroup).Done", "(*sync.WaitGroup).Wait"} {
		reg(n, false, noop)
	}
	reg("(*sync.Mutex).TryLock", false, func(m *Machine, fi *fnInfo, a []Value) Value { return m.c.T })
	reg("(*sync.Pool).Get", false, func(m *Machine, fi *fnInfo, a []Value) Value {
		s := (*a[0].(Ptr)).(structV)
		cl, _ := s[len(s)-1].(*closure)
		if cl == nil {
			return ifaceV{}
		}
		return m.callClosure(cl, nil)
	})
	reg("(*sync.Once).Do", false, func(m *Machine, fi *fnInfo, a []Value) Value {
		p := a[0].(Ptr)
		key := "once"
		s := (*p).(structV)
		// the last field is the mutex: its first word is used as the done flag here
		f := &s[0]
		for {
			if sv, ok := (*f).(structV); ok {
				if len(sv) == 0 {
					f = &s[1]
					s = structV{nil, nil}
					continue
				}
				f = &sv[len(sv)-1]
				continue
			}
			break
		}
		_ = key
		t := (*f).(*Term)
		if t.isConst() && t.val == 0 {
			m.store(f, m.c.Const(t.w, 1))
			m.callClosure(a[1].(*closure), nil)
		}
		return nil
	})

	// strings.Builder as a rope
	reg("(*strings.Builder).WriteString", false, func(m *Machine, fi *fnInfo, a []Value) Value {
		s := a[1].(*Str)
		m.ropeAdd(a[0], s)
		return tupleV{m.lenOf(s), ifaceV{}}
	})
	reg("(*strings.Builder).Write", false, func(m *Machine, fi *fnInfo, a []Value) Value {
		s := m.sliceStr(a[1])
		m.ropeAdd(a[0], s)
		return tupleV{m.lenOf(s), ifaceV{}}
	})
	reg("(*strings.Builder).WriteByte", false, func(m *Machine, fi *fnInfo, a []Value) Value {
		m.ropeAdd(a[0], m.c.fixedStr([]*Term{a[1].(*Term)}))
		return ifaceV{}
	})
	reg("(*strings.Builder).WriteRune", false, func(m *Machine, fi *fnInfo, a []Value) Value {
		s := m.runeStr(m.c.Resize(a[1].(*Term), 64, true))
		m.ropeAdd(a[0], s)
		return tupleV{m.lenOf(s), ifaceV{}}
	})
	reg("(*strings.Builder).String", false, func(m *Machine, fi *fnInfo, a []Value) Value { return m.ropeOf(a[0]) })
	reg("(*strings.Builder).Len", false, func(m *Machine, fi *fnInfo, a []Value) Value { return m.lenOf(m.ropeOf(a[0])) })
	reg("(*strings.Builder).Cap", false, func(m *Machine, fi *fnInfo, a []Value) Value { return m.lenOf(m.ropeOf(a[0])) })
	reg("(*strings.Builder).Reset", false, func(m *Machine, fi *fnInfo, a []Value) Value {
		m.store(fieldPtr(a[0], 1), ropeV{emptyStr})
		return nil
	})

	// strings
	pred := func(f func(m *Machine, s, p *Str) *Term) F {
		return func(m *Machine, fi *fnInfo, a []Value) Value {
			if t := f(m, a[0].(*Str), a[1].(*Str)); t != nil {
				return t
			}
			x, y := m.c.fixedStr(m.fixLen(a[0].(*Str))), m.c.fixedStr(m.fixLen(a[1].(*Str)))
			return f(m, x, y)
		}
	}
	reg("strings.HasPrefix", true, pred((*Machine).hasPrefixT))
	reg("internal/stringslite.HasPrefix", true, pred((*Machine).hasPrefixT))
	reg("strings.HasSuffix", true, pred((*Machine).hasSuffixT))
	reg("internal/stringslite.HasSuffix", true, pred((*Machine).hasSuffixT))
	reg("strings.Contains", true, pred((*Machine).containsT))
	reg("strings.Count", true, func(m *Machine, fi *fnInfo, a []Value) Value {
		s, p := a[0].(*Str), a[1].(*Str)
		if s.isConc && p.isConc {
			return m.i64(int64(strings.Count(s.conc, p.conc)))
		}
		// a pattern without digits, over a rope of fixed concrete pieces and integers
		if p.isConc && p.conc != "" && !strings.ContainsAny(p.conc, "-0123456789") {
			ok := true
			for _, g := range m.c.segsOf(s) {
				if g.kind == segAtom {
					ok = false
				}
				for _, b := range g.bytes {
					ok = ok && b.isConst()
				}
			}
			if ok {
				return m.i64(int64(ropeCount(m.c.segsOf(s), m.c.segsOf(p))))
			}
		}
		if m.spec > 0 {
			panic(specFail{})
		}
		return m.body(fi, a)
	})
	reg("strings.ToUpper", true, func(m *Machine, fi *fnInfo, a []Value) Value {
		if r := m.mapCase(a[0].(*Str), true); r != nil {
			return r
		}
		if m.spec > 0 {
			panic(specFail{})
		}
		return m.body(fi, a)
	})
	reg("strings.ToLower", true, func(m *Machine, fi *fnInfo, a []Value) Value {
		if r := m.mapCase(a[0].(*Str), false); r != nil {
			return r
		}
		if m.spec > 0 {
			panic(specFail{})
		}
		return m.body(fi, a)
	})
	reg("strings.EqualFold", true, func(m *Machine, fi *fnInfo, a []Value) Value {
		x, y := m.mapCase(a[0].(*Str), false), m.mapCase(a[1].(*Str), false)
		if x != nil && y != nil {
			return m.strEq(x, y)
		}
		if m.spec > 0 {
			panic(specFail{})
		}
		return m.body(fi, a)
	})
	index := func(last bool) F {
		return func(m *Machine, fi *fnInfo, a []Value) Value {
			if x, ok := a[0].(*Str); ok && x.isConc {
				if y := a[1].(*Str); y.isConc {
					if last {
						return m.i64(int64(strings.LastIndex(x.conc, y.conc)))
					}
					return m.i64(int64(strings.Index(x.conc, y.conc)))
				}
			}
			if m.spec > 0 {
				panic(specFail{})
			}
			return m.i64(int64(m.indexOf(m.bytesArg(a[0]), m.bytesArg(a[1]), last)))
		}
	}
	reg("strings.Index", false, index(false))
	reg("internal/stringslite.Index", false, index(false))
	reg("strings.LastIndex", false, index(true))
	reg("bytes.Index", false, func(m *Machine, fi *fnInfo, a []Value) Value {
		return m.i64(int64(m.indexOf(m.bytesArg(a[0]), m.bytesArg(a[1]), false)))
	})
	indexByte := func(last bool) F {
		return func(m *Machine, fi *fnInfo, a []Value) Value {
			s := m.bytesArg(a[0])
			b := a[1].(*Term)
			return m.i64(int64(m.firstIndex(len(s), func(i int) *Term { return m.c.Eq(s[i], b) }, last)))
		}
	}
	for _, n := range []string{"strings.IndexByte", "bytes.IndexByte", "internal/bytealg.IndexByte", "internal/bytealg.IndexByteString", "internal/stringslite.IndexByte"} {
		reg(n, false, indexByte(false))
	}
	for _, n := range []string{"strings.LastIndexByte", "bytes.LastIndexByte", "internal/bytealg.LastIndexByte", "internal/bytealg.LastIndexByteString"} {
		reg(n, false, indexByte(true))
	}
	count := func(m *Machine, fi *fnInfo, a []Value) Value {
		return m.countByte(m.bytesArg(a[0]), a[1].(*Term))
	}
	reg("internal/bytealg.Count", false, count)
	reg("internal/bytealg.CountString", false, count)
	reg("internal/bytealg.Equal", false, func(m *Machine, fi *fnInfo, a []Value) Value { return m.strEq(m.sliceStr(a[0]), m.sliceStr(a[1])) })
	reg("bytes.Equal", false, func(m *Machine, fi *fnInfo, a []Value) Value { return m.strEq(m.sliceStr(a[0]), m.sliceStr(a[1])) })
	cmp3 := func(m *Machine, x, y *Str) Value {
		return m.c.Ite(m.strEq(x, y), m.i64(0), m.c.Ite(m.strLess(x, y), m.i64(-1), m.i64(1)))
	}
	reg("internal/bytealg.Compare", false, func(m *Machine, fi *fnInfo, a []Value) Value { return cmp3(m, m.sliceStr(a[0]), m.sliceStr(a[1])) })
	reg("bytes.Compare", false, func(m *Machine, fi *fnInfo, a []Value) Value { return cmp3(m, m.sliceStr(a[0]), m.sliceStr(a[1])) })
	for _, n := range []string{"internal/bytealg.CompareString", "strings.Compare", "runtime.cmpstring"} {
		reg(n, true, func(m *Machine, fi *fnInfo, a []Value) Value { return cmp3(m, a[0].(*Str), a[1].(*Str)) })
	}
	reg("cmp.Compare", true, func(m *Machine, fi *fnInfo, a []Value) Value {
		if x, ok := a[0].(*Str); ok {
			return cmp3(m, x, a[1].(*Str))
		}
		t := fi.fn.Signature.Params().At(0).Type()
		if x, ok := a[0].(*Term); ok && x.w > 0 {
			y := a[1].(*Term)
			op := OpUlt
			if isSigned(t) {
				op = OpSlt
			}
			return m.c.Ite(m.c.Eq(x, y), m.i64(0), m.c.Ite(m.c.cmp(op, x, y), m.i64(-1), m.i64(1)))
		}
		if m.spec > 0 {
			panic(specFail{})
		}
		return m.body(fi, a)
	})
	reg("internal/bytealg.MakeNoZero", false, func(m *Machine, fi *fnInfo, a []Value) Value {
		n := int(m.goInt(a[0]))
		return sliceV{a: m.makeSlice(types.Typ[types.Uint8], n, n)}
	})
	reg("strings.Clone", true, func(m *Machine, fi *fnInfo, a []Value) Value { return a[0] })
	reg("internal/stringslite.Clone", true, func(m *Machine, fi *fnInfo, a []Value) Value { return a[0] })
	reg("strings.Repeat", false, func(m *Machine, fi *fnInfo, a []Value) Value {
		n := m.goInt(a[1])
		if n < 0 {
			m.rtPanic("strings: negative Repeat count")
		}
		r := emptyStr
		for i := int64(0); i < n; i++ {
			r = m.c.concat(r, a[0].(*Str))
		}
		return r
	})
	reg("strings.Join", false, func(m *Machine, fi *fnInfo, a []Value) Value {
		r := emptyStr
		for i, e := range a[0].(sliceV).a {
			if i > 0 {
				r = m.c.concat(r, a[1].(*Str))
			}
			r = m.c.concat(r, e.(*Str))
		}
		return r
	})

	// bits and abi
	reg("math/bits.TrailingZeros64", false, func(m *Machine, fi *fnInfo, a []Value) Value {
		return m.i64(int64(bits.TrailingZeros64(m.concretize(a[0].(*Term)))))
	})
	reg("math/bits.TrailingZeros32", false, func(m *Machine, fi *fnInfo, a []Value) Value {
		return m.i64(int64(bits.TrailingZeros32(uint32(m.concretize(a[0].(*Term))))))
	})
	reg("math/bits.Len64", false, func(m *Machine, fi *fnInfo, a []Value) Value {
		return m.i64(int64(bits.Len64(m.concretize(a[0].(*Term)))))
	})
	reg("math/bits.Len", false, func(m *Machine, fi *fnInfo, a []Value) Value {
		return m.i64(int64(bits.Len64(m.concretize(a[0].(*Term)))))
	})
	reg("internal/abi.NoEscape", true, func(m *Machine, fi *fnInfo, a []Value) Value { return a[0] })
	reg("internal/abi.Escape", true, func(m *Machine, fi *fnInfo, a []Value) Value { return a[0] })
	reg("math.Float64bits", false, func(m *Machine, fi *fnInfo, a []Value) Value { return m.i64(int64(math.Float64bits(a[0].(float64)))) })
	reg("math.Float64frombits", false, func(m *Machine, fi *fnInfo, a []Value) Value {
		return math.Float64frombits(m.concretize(a[0].(*Term)))
	})

	// strconv
	reg("strconv.Itoa", true, func(m *Machine, fi *fnInfo, a []Value) Value { return m.itoa(a[0].(*Term), true) })
	reg("strconv.FormatInt", false, func(m *Machine, fi *fnInfo, a []Value) Value {
		if b := a[1].(*Term); b.isConst() && b.val == 10 {
			return m.itoa(a[0].(*Term), true)
		}
		return cstr(strconv.FormatInt(m.goInt(a[0]), int(m.goInt(a[1]))))
	})
	reg("strconv.Quote", true, func(m *Machine, fi *fnInfo, a []Value) Value { return m.quote(a[0].(*Str), fi) })

	// sort
	reg("sort.Slice", false, func(m *Machine, fi *fnInfo, a []Value) Value { return m.sortSlice(a, false) })
	reg("sort.SliceStable", false, func(m *Machine, fi *fnInfo, a []Value) Value { return m.sortSlice(a, true) })
	reg("sort.SliceIsSorted", false, func(m *Machine, fi *fnInfo, a []Value) Value {
		s := a[0].(ifaceV).v.(sliceV)
		for i := len(s.a) - 1; i > 0; i-- {
			if m.bool(m.callClosure(a[1].(*closure), []Value{m.i64(int64(i)), m.i64(int64(i - 1))})) {
				return m.c.F
			}
		}
		return m.c.T
	})

	// errors
	reg("errors.Is", false, func(m *Machine, fi *fnInfo, a []Value) Value { return m.errorsIs(a[0].(ifaceV), a[1].(ifaceV)) })
	reg("errors.As", false, func(m *Machine, fi *fnInfo, a []Value) Value { return m.errorsAs(a[0].(ifaceV), a[1].(ifaceV)) })
	reg("errors.Unwrap", false, func(m *Machine, fi *fnInfo, a []Value) Value {
		e := a[0].(ifaceV)
		if e.t != nil {
			if f := m.methodByName(e.t, "Unwrap"); f != nil {
				return m.call(f, []Value{e.v}, nil)
			}
		}
		return ifaceV{}
	})

	// fmt
	reg("fmt.Sprintf", false, func(m *Machine, fi *fnInfo, a []Value) Value { return m.sprintf(a[0].(*Str), a[1].(sliceV).a) })
	reg("fmt.Errorf", false, func(m *Machine, fi *fnInfo, a []Value) Value { return m.errorf(a[0].(*Str), a[1].(sliceV).a) })
	reg("fmt.Sprint", false, func(m *Machine, fi *fnInfo, a []Value) Value { return m.sprint(a[0].(sliceV).a, false) })
	reg("fmt.Sprintln", false, func(m *Machine, fi *fnInfo, a []Value) Value { return m.sprint(a[0].(sliceV).a, true) })
	wr := func(m *Machine, s *Str) Value { return tupleV{m.i64(1), ifaceV{}} }
	reg("fmt.Printf", false, func(m *Machine, fi *fnInfo, a []Value) Value {
		s := m.sprintf(a[0].(*Str), a[1].(sliceV).a)
		m.writeOut(s)
		return wr(m, s)
	})
	reg("fmt.Print", false, func(m *Machine, fi *fnInfo, a []Value) Value {
		s := m.sprint(a[0].(sliceV).a, false)
		m.writeOut(s)
		return wr(m, s)
	})
	reg("fmt.Println", false, func(m *Machine, fi *fnInfo, a []Value) Value {
		s := m.sprint(a[0].(sliceV).a, true)
		m.writeOut(s)
		return wr(m, s)
	})
	reg("fmt.Fprintf", false, func(m *Machine, fi *fnInfo, a []Value) Value {
		m.stdFile("os.Stdout")
		s := m.sprintf(a[1].(*Str), a[2].(sliceV).a)
		m.writeTo(a[0].(ifaceV), s)
		return wr(m, s)
	})
	reg("fmt.Fprint", false, func(m *Machine, fi *fnInfo, a []Value) Value {
		s := m.sprint(a[1].(sliceV).a, false)
		m.writeTo(a[0].(ifaceV), s)
		return wr(m, s)
	})
	reg("fmt.Fprintln", false, func(m *Machine, fi *fnInfo, a []Value) Value {
		s := m.sprint(a[1].(sliceV).a, true)
		m.writeTo(a[0].(ifaceV), s)
		return wr(m, s)
	})

	// os
	reg("os.Exit", false, func(m *Machine, fi *fnInfo, a []Value) Value { panic(exitSig{a[0].(*Term)}) })
	reg("os.Getenv", false, func(m *Machine, fi *fnInfo, a []Value) Value { return emptyStr })
	reg("os.LookupEnv", false, func(m *Machine, fi *fnInfo, a []Value) Value { return tupleV{emptyStr, m.c.F} })
	reg("runtime.GOMAXPROCS", false, func(m *Machine, fi *fnInfo, a []Value) Value { return m.i64(8) })
	initValues = map[string]func(m *Machine) Value{
		"os.Stdout":               func(m *Machine) Value { return m.stdFile("os.Stdout") },
		"os.Stderr":               func(m *Machine) Value { return m.stdFile("os.Stderr") },
		"os.Stdin":                func(m *Machine) Value { return m.stdFile("os.Stdin") },
		"os.Args":                 func(m *Machine) Value { return sliceV{a: []Value{cstr("gql")}} },
		"internal/bytealg.MaxLen": func(m *Machine) Value { return m.i64(0) },
		"internal/cpu.X86":        func(m *Machine) Value { return m.zero(m.prog.pkgs["internal/cpu"].Pkg.Scope().Lookup("X86").Type()) },
	}
	for _, n := range []string{"ErrInvalid", "ErrPermission", "ErrExist", "ErrNotExist", "ErrClosed"} {
		n := n
		initValues["os."+n] = func(m *Machine) Value { return *m.global(m.prog.pkgs["internal/oserror"].Var(n)) }
	}
	registerFS(reg)
	registerND(reg)
}

func (m *Machine) itoa(t *Term, signed bool) *Str {
	if t.isConst() {
		if signed {
			return cstr(strconv.FormatInt(sext64(t.val, t.w), 10))
		}
		return cstr(strconv.FormatUint(t.val, 10))
	}
	if !signed && t.w == 64 {
		m.unsupported("decimal rendering of a symbolic uint64")
	}
	return m.c.mkStr([]seg{{kind: segItoa, n: m.c.Resize(t, 64, signed)}})
}

func (m *Machine) quote(s *Str, fi *fnInfo) *Str {
	if s.isConc {
		return cstr(strconv.Quote(s.conc))
	}
	// bytes known to be printable ASCII other than quote and backslash need no escaping
	plain := true
	for _, g := range s.segs {
		if g.kind == segItoa {
			continue
		}
		for i, b := range g.bytes {
			ok := m.c.And(m.c.cmp(OpUle, m.c.Const(8, ' '), b), m.c.cmp(OpUle, b, m.c.Const(8, '~')), m.c.Not(m.c.Eq(b, m.c.Const(8, '"'))), m.c.Not(m.c.Eq(b, m.c.Const(8, '\\'))))
			if g.kind == segAtom {
				ok = m.c.Or(ok, m.c.cmp(OpUle, g.n, m.c.Const(64, uint64(i))))
				// padding bytes are zero
				ok = m.c.Or(ok, m.c.Eq(b, m.c.Const(8, 0)))
				if v, k := m.knownCond(m.c.Or(m.c.Eq(b, m.c.Const(8, 0)), m.plainByte(b))); k && v {
					continue
				}
			}
			if v, k := m.knownCond(ok); !k || !v {
				plain = false
			}
		}
	}
	if plain {
		r := *m.c.concat(m.c.concat(cstr(`"`), s), cstr(`"`))
		r.quoted = s
		return &r
	}
	if r := m.quoteASCII(s); r != nil {
		return r
	}
	if m.spec > 0 {
		panic(specFail{})
	}
	f := m.info(m.prog.fn("strconv", "Quote"))
	return m.body(f, []Value{m.c.fixedStr(m.fixLen(s))}).(*Str)
}

func (m *Machine) plainByte(b *Term) *Term {
	c := m.c
	return c.And(c.cmp(OpUle, c.Const(8, ' '), b), c.cmp(OpUle, b, c.Const(8, '~')), c.Not(c.Eq(b, c.Const(8, '"'))), c.Not(c.Eq(b, c.Const(8, '\\'))))
}

func (m *Machine) sortSlice(a []Value, stable bool) Value {
	x := a[0].(ifaceV)
	s := x.v.(sliceV)
	less := a[1].(*closure)
	swap := &closure{name: "swap", native: func(m *Machine, v []Value) Value {
		i, j := m.goInt(v[0]), m.goInt(v[1])
		if i < 0 || j < 0 || int(i) >= len(s.a) || int(j) >= len(s.a) {
			m.rtPanic("reflect: slice index out of range")
		}
		p, q := copyVal(s.a[i]), copyVal(s.a[j])
		m.assign(&s.a[i], q)
		m.assign(&s.a[j], p)
		return nil
	}}
	n := len(s.a)
	data := structV{less, swap}
	if stable {
		m.call(m.info(m.prog.fn("sort", "stable_func")), []Value{data, m.i64(int64(n))}, nil)
	} else {
		m.call(m.info(m.prog.fn("sort", "pdqsort_func")), []Value{data, m.i64(0), m.i64(int64(n)), m.i64(int64(bits.Len(uint(n))))}, nil)
	}
	return nil
}

func (m *Machine) errorsIs(e, target ifaceV) Value {
	for e.t != nil {
		if target.t != nil && m.prog.identical(e.t, target.t) && types.Comparable(e.t) {
			if m.branch(m.valEq(e.v, target.v)) {
				return m.c.T
			}
		}
		if f := m.methodByName(e.t, "Is"); f != nil {
			if m.bool(m.call(f, []Value{e.v, target}, nil)) {
				return m.c.T
			}
		}
		f := m.methodByName(e.t, "Unwrap")
		if f == nil {
			break
		}
		r := m.call(f, []Value{e.v}, nil)
		switch x := r.(type) {
		case ifaceV:
			e = x
		case sliceV:
			for _, y := range x.a {
				if t := m.errorsIs(y.(ifaceV), target).(*Term); t.isTrue() {
					return t
				}
			}
			return m.c.F
		}
	}
	return m.c.Bool(target.t == nil && e.t == nil)
}

func (m *Machine) errorsAs(e, target ifaceV) Value {
	pt, ok := target.t.Underlying().(*types.Pointer)
	if !ok {
		m.rtPanic("errors: target must be a non-nil pointer")
	}
	et := pt.Elem()
	for e.t != nil {
		match := false
		if it, ok := et.Underlying().(*types.Interface); ok {
			match = m.prog.implements(e.t, it)
			if match {
				m.assign(target.v.(Ptr), e)
			}
		} else if m.prog.identical(e.t, et) {
			match = true
			m.assign(target.v.(Ptr), e.v)
		}
		if match {
			return m.c.T
		}
		f := m.methodByName(e.t, "Unwrap")
		if f == nil {
			break
		}
		r, ok := m.call(f, []Value{e.v}, nil).(ifaceV)
		if !ok {
			m.unsupported("errors.As over a multi-error")
		}
		e = r
	}
	return m.c.F
}

func (m *Machine) errorf(f *Str, args []Value) Value {
	s := m.sprintf(f, args)
	if f.isConc && strings.Contains(f.conc, "%w") {
		var wrapped []ifaceV
		for _, a := range args {
			if iv, ok := a.(ifaceV); ok && iv.t != nil && m.methodByName(iv.t, "Error") != nil {
				wrapped = append(wrapped, iv)
			}
		}
		if len(wrapped) == 1 {
			wt := m.prog.pkgs["fmt"].Pkg.Scope().Lookup("wrapError").Type()
			var v Value = structV{s, wrapped[0]}
			return ifaceV{t: types.NewPointer(wt), v: Ptr(&v)}
		}
	}
	return m.newError(s)
}

func (m *Machine) sprint(args []Value, ln bool) *Str {
	r := emptyStr
	prevStr := true
	for i, a := range args {
		iv := a.(ifaceV)
		isStr := false
		if iv.t != nil {
			b, ok := iv.t.Underlying().(*types.Basic)
			isStr = ok && b.Info()&types.IsString != 0
		}
		if i > 0 && (ln || (!isStr && !prevStr)) {
			r = m.c.concat(r, cstr(" "))
		}
		r = m.c.concat(r, m.formatV(iv, 'v', false))
		prevStr = isStr
	}
	if ln {
		r = m.c.concat(r, cstr("\n"))
	}
	return r
}

func (m *Machine) sprintf(f *Str, args []Value) *Str {
	if !f.isConc {
		f = cstr(m.goStr(f))
	}
	s := f.conc
	r := emptyStr
	arg, reordered := 0, false
	app := func(x *Str) { r = m.c.concat(r, x) }
	for i := 0; i < len(s); {
		j := strings.IndexByte(s[i:], '%')
		if j < 0 {
			app(cstr(s[i:]))
			break
		}
		if j > 0 {
			app(cstr(s[i : i+j]))
		}
		i += j + 1
		if i >= len(s) {
			app(cstr("%!(NOVERB)"))
			break
		}
		st := i
		reordered = false
		plus, minus, zero, sharp := false, false, false, false
	flags:
		for ; i < len(s); i++ {
			switch s[i] {
			case '+':
				plus = true
			case '-':
				minus = true
			case '0':
				zero = true
			case '#':
				sharp = true
			case ' ':
			default:
				break flags
			}
		}
		width, prec := -1, -1
		star := false
		for ; i < len(s) && s[i] >= '0' && s[i] <= '9'; i++ {
			if width < 0 {
				width = 0
			}
			width = width*10 + int(s[i]-'0')
		}
		if i < len(s) && s[i] == '*' {
			star = true
			if arg < len(args) {
				width = int(m.goInt(args[arg].(ifaceV).v))
				arg++
			}
			i++
		}
		if i < len(s) && s[i] == '.' {
			i++
			prec = 0
			for ; i < len(s) && s[i] >= '0' && s[i] <= '9'; i++ {
				prec = prec*10 + int(s[i]-'0')
			}
		}
		if i < len(s) && s[i] == '[' {
			j := strings.IndexByte(s[i:], ']')
			k := 0
			if j > 0 {
				k, _ = strconv.Atoi(s[i+1 : i+j])
			}
			if k < 1 || k > len(args) || st != i {
				m.unsupported("indexed format verb")
			}
			arg, reordered = k-1, true
			i += j + 1
			st = i
		}
		if i >= len(s) {
			app(cstr("%!(NOVERB)"))
			break
		}
		verb := s[i]
		spec := s[st : i+1]
		i++
		if verb == '%' {
			app(cstr("%"))
			continue
		}
		if verb == '[' {
			m.unsupported("indexed format verb")
		}
		if arg >= len(args) {
			app(cstr("%!" + string(verb) + "(MISSING)"))
			continue
		}
		iv := args[arg].(ifaceV)
		arg++
		if verb == 'w' {
			verb = 'v'
		}
		var x *Str
		if len(spec) == 1 || (verb == 'v' && (spec == "+v")) {
			x = m.formatV(iv, verb, plus)
		} else if minus || zero || width >= 0 || prec >= 0 || sharp || plus {
			x = m.formatWide(iv, verb, spec, star, width, prec, minus, zero)
		} else {
			x = m.formatV(iv, verb, plus)
		}
		app(x)
	}
	if !reordered && arg < len(args) {
		app(cstr("%!(EXTRA "))
		for k := arg; k < len(args); k++ {
			iv := args[k].(ifaceV)
			if k > arg {
				app(cstr(", "))
			}
			if iv.t == nil {
				app(cstr("<nil>"))
				continue
			}
			app(cstr(types.TypeString(iv.t, func(p *types.Package) string { return p.Name() }) + "="))
			app(m.formatV(iv, 'v', false))
		}
		app(cstr(")"))
	}
	return r
}

// formatWide handles flags by making the argument concrete.
func (m *Machine) formatWide(iv ifaceV, verb byte, spec string, star bool, width, prec int, minus, zero bool) *Str {
	if iv.t == nil {
		return cstr(fmt.Sprintf("%"+spec, nil))
	}
	if star {
		pre := "%"
		if minus {
			pre += "-"
		}
		spec = pre[1:] + strconv.Itoa(width) + string(verb)
	}
	x := m.handleMethods(iv, verb)
	if x != nil {
		return cstr(fmt.Sprintf("%"+spec, m.goStr(x)))
	}
	switch v := iv.v.(type) {
	case *Str:
		return cstr(fmt.Sprintf("%"+spec, m.goStr(v)))
	case *Term:
		b := iv.t.Underlying().(*types.Basic)
		k := m.concretize(v)
		switch {
		case v.w == 0:
			return cstr(fmt.Sprintf("%"+spec, k != 0))
		case b.Info()&types.IsUnsigned != 0:
			return cstr(fmt.Sprintf("%"+spec, k))
		}
		if b.Kind() == types.Int32 && (verb == 'q' || verb == 'c' || verb == 'U') {
			return cstr(fmt.Sprintf("%"+spec, rune(sext64(k, v.w))))
		}
		return cstr(fmt.Sprintf("%"+spec, sext64(k, v.w)))
	case float64:
		return cstr(fmt.Sprintf("%"+spec, v))
	}
	m.unsupported("format %%%s of %v", spec, iv.t)
	return nil
}

func (m *Machine) handleMethods(iv ifaceV, verb byte) *Str {
	switch verb {
	case 'v', 's', 'q', 'x', 'X':
	default:
		return nil
	}
	for _, n := range []string{"Error", "String"} {
		fi := m.methodByName(iv.t, n)
		if fi == nil {
			continue
		}
		sg := fi.fn.Signature
		if sg.Params().Len() != 0 || sg.Results().Len() != 1 || !types.Identical(sg.Results().At(0).Type(), types.Typ[types.String]) {
			continue
		}
		var s *Str
		func() {
			defer func() {
				if r := recover(); r != nil {
					gp, ok := r.(*goPanic)
					if p, isp := iv.v.(Ptr); ok && isp && p == nil {
						s = cstr("<nil>")
						return
					}
					if ok {
						s = cstr("%!" + string(verb) + "(PANIC=" + n + " method: " + gp.msg + ")")
						return
					}
					panic(r)
				}
			}()
			d, st := m.depth, len(m.callStk)
			s = m.call(fi, []Value{iv.v}, nil).(*Str)
			m.depth, m.callStk = d, m.callStk[:st]
		}()
		return s
	}
	return nil
}

func (m *Machine) formatV(iv ifaceV, verb byte, plus bool) *Str {
	if iv.t == nil {
		if verb == 'v' {
			return cstr("<nil>")
		}
		return cstr("%!" + string(verb) + "(<nil>)")
	}
	if s := m.handleMethods(iv, verb); s != nil {
		if verb == 'q' {
			return m.quote(s, nil)
		}
		return s
	}
	return m.formatPlain(iv.t, iv.v, verb, plus, 0)
}

func (m *Machine) formatPlain(t types.Type, v Value, verb byte, plus bool, depth int) *Str {
	bad := func() *Str {
		m.unsupported("format %%%c of %v", verb, t)
		return nil
	}
	cat := func(xs ...*Str) *Str {
		r := emptyStr
		for _, x := range xs {
			r = m.c.concat(r, x)
		}
		return r
	}
	inner := func(et types.Type, ev Value) *Str {
		if it, ok := ev.(ifaceV); ok {
			if it.t == nil {
				return cstr("<nil>")
			}
			return m.formatV(it, verb, plus)
		}
		// fields are formatted with methods only when accessible; gql's types have none that matter
		if s := m.handleMethods(ifaceV{et, ev}, verb); s != nil {
			return s
		}
		return m.formatPlain(et, ev, verb, plus, depth+1)
	}
	switch u := t.Underlying().(type) {
	case *types.Basic:
		switch x := v.(type) {
		case *Str:
			switch verb {
			case 'v', 's':
				return x
			case 'q':
				return m.quote(x, nil)
			case 'd':
				return cat(cstr("%!d("+types.TypeString(t, func(p *types.Package) string { return p.Name() })+"="), x, cstr(")"))
			}
			return cstr(fmt.Sprintf("%"+string(verb), m.goStr(x)))
		case *Term:
			if x.w == 0 {
				switch verb {
				case 'v', 't':
					if m.branch(x) {
						return cstr("true")
					}
					return cstr("false")
				}
				return bad()
			}
			switch verb {
			case 'v', 'd':
				return m.itoa(x, u.Info()&types.IsUnsigned == 0)
			case 's':
				return cat(cstr("%!s("+types.TypeString(t, func(p *types.Package) string { return p.Name() })+"="), m.itoa(x, u.Info()&types.IsUnsigned == 0), cstr(")"))
			case 'c':
				return m.runeStr(m.c.Resize(x, 64, u.Info()&types.IsUnsigned == 0))
			}
			return m.formatWide(ifaceV{t, v}, verb, string(verb), false, -1, -1, false, false)
		case float64:
			return cstr(fmt.Sprintf("%"+string(verb), x))
		case unsafeV:
			return cstr("0xc000000000")
		}
	case *types.Slice, *types.Array:
		var a []Value
		var et types.Type
		switch x := v.(type) {
		case sliceV:
			a = x.a
			et = u.(*types.Slice).Elem()
		case arrV:
			a = x
			et = u.(*types.Array).Elem()
		}
		if b, ok := et.Underlying().(*types.Basic); ok && b.Kind() == types.Uint8 && (verb == 's' || verb == 'q') {
			s := m.sliceStr(sliceV{a})
			if verb == 'q' {
				return m.quote(s, nil)
			}
			return s
		}
		r := cstr("[")
		for i, e := range a {
			if i > 0 {
				r = cat(r, cstr(" "))
			}
			r = cat(r, inner(et, e))
		}
		return cat(r, cstr("]"))
	case *types.Struct:
		s := v.(structV)
		r := cstr("{")
		for i, e := range s {
			if i > 0 {
				r = cat(r, cstr(" "))
			}
			if plus {
				r = cat(r, cstr(u.Field(i).Name()+":"))
			}
			r = cat(r, inner(u.Field(i).Type(), e))
		}
		return cat(r, cstr("}"))
	case *types.Pointer:
		p, ok := v.(Ptr)
		if !ok {
			return bad()
		}
		if p == nil {
			if verb == 'v' {
				return cstr("<nil>")
			}
			return cstr("%!" + string(verb) + "(" + t.String() + "=<nil>)")
		}
		if depth == 0 {
			switch u.Elem().Underlying().(type) {
			case *types.Struct, *types.Slice, *types.Array:
				return cat(cstr("&"), m.formatPlain(u.Elem(), *p, verb, plus, depth+1))
			}
		}
		return cstr("0xc000000000")
	case *types.Interface:
		if it, ok := v.(ifaceV); ok {
			return m.formatV(it, verb, plus)
		}
	case *types.Map:
		mo := v.(*mapObj)
		if mo == nil || mo.n == 0 {
			return cstr("map[]")
		}
	}
	return bad()
}

var _ = ssa.NaiveForm
