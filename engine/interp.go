package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"math"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// opnd is a resolved operand: a register, a constant or a global.
type opnd struct {
	slot int32 // >=0 register, -1 constant, -2 global
	cst  Value
	g    *ssa.Global
}

type ikind uint8

const (
	kAlloc ikind = iota
	kPhi
	kCall
	kBinOp
	kUnOp
	kChangeType
	kConvert
	kMultiConvert
	kChangeInterface
	kSliceToArray
	kMakeInterface
	kMakeClosure
	kMakeMap
	kMakeChan
	kMakeSlice
	kSlice
	kFieldAddr
	kField
	kIndexAddr
	kIndex
	kLookup
	kRange
	kNext
	kTypeAssert
	kExtract
	kJump
	kIf
	kReturn
	kRunDefers
	kPanic
	kGo
	kDefer
	kSend
	kStore
	kMapUpdate
	kSelect
	kNop
)

type cinstr struct {
	k   ikind
	dst int32
	in  ssa.Instruction
	ops []opnd
	// call data
	callee  *fnInfo
	builtin string
	typ     types.Type
	n       int // field number, extract index
	op      token.Token
	pend    *ssa.Function // static callee, resolved to callee on first use
}

type cblock struct {
	phis   []cinstr
	body   []cinstr
	preds  []int
	succs  []int
	region *region // merge region of a block ending in If
	regOK  bool
}

type region struct {
	ok     bool
	join   int   // block index, or -1 for the function exit
	blocks []int // topological order
}

type fnInfo struct {
	fn       *ssa.Function
	nregs    int
	blocks   []cblock
	slots    map[ssa.Value]int32
	compiled bool
	hasDefer bool
	intr     func(m *Machine, fi *fnInfo, args []Value) Value
	intrPure bool
	purity   int8 // 0 unknown 1 computing 2 pure 3 impure
	name     string
}

type frame struct {
	fi     *fnInfo
	regs   []Value
	defers []func()
	pan    *goPanic // panic being handled
	result Value
}

type specFail struct{}

func (m *Machine) info(fn *ssa.Function) *fnInfo {
	if fi, ok := m.fninfo[fn]; ok {
		return fi
	}
	fi := &fnInfo{fn: fn, name: fnName(fn)}
	if in, ok := intrinsics[fi.name]; ok {
		fi.intr = in.f
		fi.intrPure = in.pure
	} else if i := strings.IndexByte(fi.name, '['); i > 0 {
		if in, ok := intrinsics[fi.name[:i]]; ok {
			fi.intr = in.f
			fi.intrPure = in.pure
		}
	}
	m.fninfo[fn] = fi
	return fi
}

// fnName is the full name of a function; functions of the nd package are "nd.X".
func fnName(fn *ssa.Function) string {
	s := fn.String()
	if i := strings.Index(s, "/zzverif/nd."); i >= 0 && strings.HasSuffix(s[:i], "CrowdStrike/gql") {
		return "nd." + s[i+len("/zzverif/nd."):]
	}
	return s
}

func (m *Machine) compile(fi *fnInfo) {
	fn := fi.fn
	fi.compiled = true
	fi.slots = map[ssa.Value]int32{}
	n := int32(0)
	for _, p := range fn.Params {
		fi.slots[p] = n
		n++
	}
	for _, p := range fn.FreeVars {
		fi.slots[p] = n
		n++
	}
	for _, b := range fn.Blocks {
		for _, in := range b.Instrs {
			if v, ok := in.(ssa.Value); ok {
				fi.slots[v] = n
				n++
			}
		}
	}
	fi.nregs = int(n)
	if fn.Recover != nil {
		fi.hasDefer = true
	}
	fi.blocks = make([]cblock, len(fn.Blocks))
	for i, b := range fn.Blocks {
		cb := &fi.blocks[i]
		for _, p := range b.Preds {
			cb.preds = append(cb.preds, p.Index)
		}
		for _, s := range b.Succs {
			cb.succs = append(cb.succs, s.Index)
		}
		for _, in := range b.Instrs {
			ci := cinstr{in: in, dst: -1}
			if v, ok := in.(ssa.Value); ok {
				ci.dst = fi.slots[v]
				ci.typ = v.Type()
			}
			switch x := in.(type) {
			case *ssa.DebugRef:
				continue
			case *ssa.Alloc:
				ci.k = kAlloc
				ci.typ = x.Type().Underlying().(*types.Pointer).Elem()
			case *ssa.Phi:
				ci.k = kPhi
				for _, e := range x.Edges {
					ci.ops = append(ci.ops, m.operand(fi, e))
				}
				cb.phis = append(cb.phis, ci)
				continue
			case *ssa.Call:
				ci.k = kCall
				m.compileCall(fi, &ci, &x.Call)
			case *ssa.BinOp:
				ci.k = kBinOp
				ci.op = x.Op
				ci.typ = x.X.Type()
				m.addOps(fi, &ci, x.X, x.Y)
			case *ssa.UnOp:
				ci.k = kUnOp
				ci.op = x.Op
				m.addOps(fi, &ci, x.X)
			case *ssa.ChangeType:
				ci.k = kChangeType
				m.addOps(fi, &ci, x.X)
			case *ssa.Convert:
				ci.k = kConvert
				m.addOps(fi, &ci, x.X)
			case *ssa.MultiConvert:
				ci.k = kMultiConvert
			case *ssa.ChangeInterface:
				ci.k = kChangeInterface
				m.addOps(fi, &ci, x.X)
			case *ssa.SliceToArrayPointer:
				ci.k = kSliceToArray
			case *ssa.MakeInterface:
				ci.k = kMakeInterface
				ci.typ = x.X.Type()
				m.addOps(fi, &ci, x.X)
			case *ssa.MakeClosure:
				ci.k = kMakeClosure
				m.addOps(fi, &ci, x.Bindings...)
			case *ssa.MakeMap:
				ci.k = kMakeMap
			case *ssa.MakeChan:
				ci.k = kMakeChan
			case *ssa.MakeSlice:
				ci.k = kMakeSlice
				m.addOps(fi, &ci, x.Len, x.Cap)
				ci.typ = x.Type().Underlying().(*types.Slice).Elem()
			case *ssa.Slice:
				ci.k = kSlice
				m.addOps(fi, &ci, x.X)
				for _, v := range []ssa.Value{x.Low, x.High, x.Max} {
					if v == nil {
						ci.ops = append(ci.ops, opnd{slot: -1, cst: nil})
					} else {
						m.addOps(fi, &ci, v)
					}
				}
			case *ssa.FieldAddr:
				ci.k = kFieldAddr
				ci.n = x.Field
				m.addOps(fi, &ci, x.X)
			case *ssa.Field:
				ci.k = kField
				ci.n = x.Field
				m.addOps(fi, &ci, x.X)
			case *ssa.IndexAddr:
				ci.k = kIndexAddr
				ci.typ = x.Index.Type()
				m.addOps(fi, &ci, x.X, x.Index)
			case *ssa.Index:
				ci.k = kIndex
				ci.typ = x.Index.Type()
				m.addOps(fi, &ci, x.X, x.Index)
			case *ssa.Lookup:
				ci.k = kLookup
				m.addOps(fi, &ci, x.X, x.Index)
			case *ssa.Range:
				ci.k = kRange
				m.addOps(fi, &ci, x.X)
			case *ssa.Next:
				ci.k = kNext
				m.addOps(fi, &ci, x.Iter)
			case *ssa.TypeAssert:
				ci.k = kTypeAssert
				ci.typ = x.AssertedType
				m.addOps(fi, &ci, x.X)
			case *ssa.Extract:
				ci.k = kExtract
				ci.n = x.Index
				m.addOps(fi, &ci, x.Tuple)
			case *ssa.Jump:
				ci.k = kJump
			case *ssa.If:
				ci.k = kIf
				m.addOps(fi, &ci, x.Cond)
			case *ssa.Return:
				ci.k = kReturn
				m.addOps(fi, &ci, x.Results...)
			case *ssa.RunDefers:
				ci.k = kRunDefers
			case *ssa.Panic:
				ci.k = kPanic
				m.addOps(fi, &ci, x.X)
			case *ssa.Go:
				ci.k = kGo
			case *ssa.Defer:
				ci.k = kDefer
				fi.hasDefer = true
				m.compileCall(fi, &ci, &x.Call)
			case *ssa.Send:
				ci.k = kSend
			case *ssa.Store:
				ci.k = kStore
				m.addOps(fi, &ci, x.Addr, x.Val)
			case *ssa.MapUpdate:
				ci.k = kMapUpdate
				m.addOps(fi, &ci, x.Map, x.Key, x.Value)
			case *ssa.Select:
				ci.k = kSelect
			default:
				panic(fmt.Sprintf("unknown instruction %T", in))
			}
			cb.body = append(cb.body, ci)
		}
	}
}

func (m *Machine) addOps(fi *fnInfo, ci *cinstr, vs ...ssa.Value) {
	for _, v := range vs {
		ci.ops = append(ci.ops, m.operand(fi, v))
	}
}

func (m *Machine) compileCall(fi *fnInfo, ci *cinstr, c *ssa.CallCommon) {
	switch v := c.Value.(type) {
	case *ssa.Builtin:
		ci.builtin = v.Name()
	case *ssa.Function:
		if !c.IsInvoke() {
			ci.pend = v
		}
	}
	if ci.builtin == "" && ci.pend == nil {
		ci.ops = append(ci.ops, m.operand(fi, c.Value))
	}
	m.addOps(fi, ci, c.Args...)
}

func (m *Machine) operand(fi *fnInfo, v ssa.Value) opnd {
	switch x := v.(type) {
	case *ssa.Const:
		return opnd{slot: -1, cst: m.constVal(x)}
	case *ssa.Function:
		return opnd{slot: -1, cst: &closure{fn: x}}
	case *ssa.Global:
		return opnd{slot: -2, g: x}
	case *ssa.Builtin:
		return opnd{slot: -1, cst: nil}
	}
	s, ok := fi.slots[v]
	if !ok {
		panic(fmt.Sprintf("no slot for %T %v in %v", v, v, fi.fn))
	}
	return opnd{slot: s}
}

func (m *Machine) constVal(k *ssa.Const) Value {
	t := k.Type().Underlying()
	if k.Value == nil {
		return m.zero(k.Type())
	}
	b, ok := t.(*types.Basic)
	if !ok {
		if _, isIface := t.(*types.Interface); isIface {
			return m.zero(t)
		}
		panic(fmt.Sprintf("const of type %v", k.Type()))
	}
	switch {
	case b.Info()&types.IsBoolean != 0:
		return m.c.Bool(constant.BoolVal(k.Value))
	case b.Info()&types.IsString != 0:
		if k.Value.Kind() == constant.String {
			return cstr(constant.StringVal(k.Value))
		}
		v, _ := constant.Int64Val(k.Value)
		return cstr(string(rune(v)))
	case b.Info()&types.IsInteger != 0:
		w := intWidth(b)
		v := constant.ToInt(k.Value)
		if i, ok := constant.Int64Val(v); ok {
			return m.c.Const(w, uint64(i))
		}
		u, _ := constant.Uint64Val(v)
		return m.c.Const(w, u)
	case b.Info()&types.IsFloat != 0:
		f, _ := constant.Float64Val(k.Value)
		return f
	}
	return complex(0, 0)
}

func (m *Machine) get(f *frame, o *opnd) Value {
	if o.slot >= 0 {
		return f.regs[o.slot]
	}
	if o.slot == -1 {
		return o.cst
	}
	return m.global(o.g)
}

// global returns the variable of g, initialising its package first.
func (m *Machine) global(g *ssa.Global) Ptr {
	pkg := g.Pkg
	if !m.inited[pkg] {
		m.initPkg(pkg, g)
	}
	p, ok := m.globals[g]
	if !ok {
		v := m.zero(g.Type().Underlying().(*types.Pointer).Elem())
		p = &v
		m.globals[g] = p
	}
	return p
}

var skipInit = map[string]bool{
	"runtime": true, "os": true, "syscall": true, "reflect": true, "sync": true, "sync/atomic": true, "time": true, "fmt": true, "log": true,
	"errors": true, "internal/reflectlite": true, "internal/cpu": true, "internal/poll": true, "internal/oserror": false, "unsafe": true,
	"internal/bytealg": true, "internal/godebug": true, "internal/testlog": true, "encoding/json": true, "testing": true, "context": true,
	"net": true, "net/http": true, "math/rand": true, "internal/abi": true, "path/filepath": false, "io/fs": false, "flag": true, "text/template": true, "html/template": true,
	"internal/syscall/unix": true, "unique": true, "weak": true, "iter": true,
}

// okGlobals of packages whose initialiser is not run: the zero value or a fixed value is right.
var okGlobals = map[string]bool{"fmt.ppFree": true}

func (m *Machine) initPkg(pkg *ssa.Package, g *ssa.Global) {
	path := pkg.Pkg.Path()
	if strings.HasPrefix(path, "golang.org/x/") {
		m.unsupported("global of %s", path)
	}
	if skipInit[path] {
		if okGlobals[path+"."+g.Name()] {
			return
		}
		if iv, ok := initValues[path+"."+g.Name()]; ok {
			if _, done := m.globals[g]; !done {
				v := iv(m)
				p := &v
				m.globals[g] = p
			}
			return
		}
		m.unsupported("global %s.%s of a package that is not initialised", path, g.Name())
	}
	m.inited[pkg] = true
	init := pkg.Func("init")
	if init == nil || len(init.Blocks) == 0 {
		return
	}
	m.initing++
	spec := m.spec
	m.spec = 0
	m.call(m.info(init), nil, nil)
	m.spec = spec
	m.initing--
}

// rtPanic raises a Go run-time panic.
func (m *Machine) rtPanic(msg string) {
	if m.spec > 0 {
		panic(specFail{})
	}
	panic(&goPanic{v: ifaceV{t: m.prog.rtErr, v: cstr(msg)}, msg: "runtime error: " + msg, stack: m.stackNames()})
}

func (m *Machine) nilPanic() { m.rtPanic("invalid memory address or nil pointer dereference") }

// must raises a panic unless cond holds (forking if it is undecided).
func (m *Machine) must(cond *Term, msg string) {
	if cond.isTrue() {
		return
	}
	if m.spec > 0 {
		if v, ok := m.knownCond(cond); !ok || !v {
			panic(specFail{})
		}
		return
	}
	if !m.branch(cond) {
		m.rtPanic(msg)
	}
}

const maxDepth = 3000

func (m *Machine) call(fi *fnInfo, args []Value, env []Value) Value {
	if fi.intr != nil {
		if m.spec > 0 && !fi.intrPure {
			panic(specFail{})
		}
		return fi.intr(m, fi, args)
	}
	if !fi.compiled {
		if len(fi.fn.Blocks) == 0 {
			if m.prog.stubOK(fi.fn) {
				return m.zero(fi.fn.Signature.Results())
			}
			m.unsupported("call of %s (no body)", fi.name)
		}
		m.compile(fi)
		m.st.Funcs[fi.name] = true
	}
	m.depth++
	if m.depth > maxDepth {
		panic(pathEnd{"steps", "call depth"})
	}
	m.callStk = append(m.callStk, fi.fn)
	f := &frame{fi: fi, regs: make([]Value, fi.nregs)}
	copy(f.regs, args)
	copy(f.regs[len(args):], env)
	var r Value
	if fi.hasDefer {
		r = m.runDeferring(f)
	} else {
		r = m.run(f, 0)
	}
	m.depth--
	m.callStk = m.callStk[:len(m.callStk)-1]
	return r
}

// runDeferring runs a function that has defers, converting panics.
func (m *Machine) runDeferring(f *frame) (res Value) {
	depth, stk := m.depth, len(m.callStk)
	func() {
		defer func() {
			r := recover()
			if r == nil {
				return
			}
			gp, ok := r.(*goPanic)
			if !ok {
				panic(r)
			}
			m.depth = depth
			m.callStk = m.callStk[:stk]
			f.pan = gp
		}()
		res = m.run(f, 0)
	}()
	if f.pan == nil {
		return res
	}
	// run the deferred calls of the panicking frame
	m.runDefers(f)
	if f.pan != nil {
		panic(f.pan)
	}
	if f.fi.fn.Recover != nil {
		return m.run(f, f.fi.fn.Recover.Index)
	}
	return m.zero(f.fi.fn.Signature.Results())
}

func (m *Machine) runDefers(f *frame) {
	for len(f.defers) > 0 {
		d := f.defers[len(f.defers)-1]
		f.defers = f.defers[:len(f.defers)-1]
		func() {
			depth, stk, np := m.depth, len(m.callStk), len(m.panicking)
			defer func() {
				if r := recover(); r != nil {
					gp, ok := r.(*goPanic)
					if !ok {
						panic(r)
					}
					m.depth = depth
					m.callStk = m.callStk[:stk]
					m.panicking = m.panicking[:np]
					f.pan = gp
				}
			}()
			m.panicking = append(m.panicking, f)
			d()
			m.panicking = m.panicking[:len(m.panicking)-1]
		}()
	}
}

func (m *Machine) run(f *frame, bi int) Value {
	fi := f.fi
	prev := -1
	skipPhis := false
	for {
		b := &fi.blocks[bi]
		if len(b.phis) > 0 && !skipPhis {
			e := 0
			for i, p := range b.preds {
				if p == prev {
					e = i
					break
				}
			}
			if len(b.phis) == 1 {
				ph := &b.phis[0]
				f.regs[ph.dst] = m.get(f, &ph.ops[e])
			} else {
				var tmp [8]Value
				vals := tmp[:0]
				for i := range b.phis {
					vals = append(vals, m.get(f, &b.phis[i].ops[e]))
				}
				for i := range b.phis {
					f.regs[b.phis[i].dst] = vals[i]
				}
			}
		}
		skipPhis = false
		next := -1
	body:
		for i := range b.body {
			ci := &b.body[i]
			m.steps++
			switch ci.k {
			case kJump:
				next = b.succs[0]
				break body
			case kIf:
				cond := m.get(f, &ci.ops[0]).(*Term)
				if cond.op == OpConst {
					if cond.val == 1 {
						next = b.succs[0]
					} else {
						next = b.succs[1]
					}
					break body
				}
				if v, ok := m.knownCond(cond); ok {
					if v {
						next = b.succs[0]
					} else {
						next = b.succs[1]
					}
					break body
				}
				if j, ret, ok := m.tryMerge(f, bi, cond); ok {
					m.st.Merges++
					if j < 0 {
						return ret
					}
					skipPhis = true
					prev = -1
					bi = j
					next = j
					goto merged
				}
				if m.spec > 0 {
					panic(specFail{})
				}
				if m.branch(cond) {
					next = b.succs[0]
				} else {
					next = b.succs[1]
				}
				break body
			case kReturn:
				switch len(ci.ops) {
				case 0:
					return nil
				case 1:
					return m.get(f, &ci.ops[0])
				}
				t := make(tupleV, len(ci.ops))
				for k := range ci.ops {
					t[k] = m.get(f, &ci.ops[k])
				}
				return t
			default:
				m.step(f, ci)
			}
		}
		if m.steps > m.ex.stepLimit && m.initing == 0 {
			if m.spec > 0 {
				panic(specFail{})
			}
			panic(pathEnd{"steps", "step limit"})
		}
		prev = bi
		bi = next
	merged:
	}
}

func (m *Machine) step(f *frame, ci *cinstr) {
	switch ci.k {
	case kAlloc:
		v := m.zero(ci.typ)
		f.regs[ci.dst] = Ptr(&v)
	case kCall:
		f.regs[ci.dst] = m.doCall(f, ci)
	case kBinOp:
		f.regs[ci.dst] = m.binop(ci.op, ci.typ, m.get(f, &ci.ops[0]), m.get(f, &ci.ops[1]), ci)
	case kUnOp:
		f.regs[ci.dst] = m.unop(f, ci)
	case kChangeType, kChangeInterface:
		f.regs[ci.dst] = m.get(f, &ci.ops[0])
	case kConvert:
		f.regs[ci.dst] = m.convert(m.get(f, &ci.ops[0]), ci.in.(*ssa.Convert).X.Type(), ci.typ)
	case kMakeInterface:
		f.regs[ci.dst] = ifaceV{t: ci.typ, v: m.get(f, &ci.ops[0])}
	case kMakeClosure:
		env := make([]Value, len(ci.ops))
		for i := range ci.ops {
			env[i] = m.get(f, &ci.ops[i])
		}
		f.regs[ci.dst] = &closure{fn: ci.in.(*ssa.MakeClosure).Fn.(*ssa.Function), env: env}
	case kMakeMap:
		mt := ci.typ.Underlying().(*types.Map)
		f.regs[ci.dst] = m.newMap(mt.Key(), mt.Elem())
	case kMakeChan:
		f.regs[ci.dst] = chanV{}
	case kMakeSlice:
		n := int64(m.concretize(m.get(f, &ci.ops[0]).(*Term)))
		c := int64(m.concretize(m.get(f, &ci.ops[1]).(*Term)))
		if n < 0 || c < n || c > 1<<24 {
			m.rtPanic("makeslice: len out of range")
		}
		f.regs[ci.dst] = sliceV{a: m.makeSlice(ci.typ, int(n), int(c))}
	case kSlice:
		f.regs[ci.dst] = m.doSlice(f, ci)
	case kFieldAddr:
		p := m.get(f, &ci.ops[0])
		ptr, ok := p.(Ptr)
		if !ok {
			m.unsupported("FieldAddr of %T in %v", p, f.fi.name)
		}
		if ptr == nil {
			m.nilPanic()
		}
		s, ok := (*ptr).(structV)
		if !ok {
			m.unsupported("FieldAddr into %T in %v", *ptr, f.fi.name)
		}
		f.regs[ci.dst] = Ptr(&s[ci.n])
	case kField:
		f.regs[ci.dst] = copyVal(m.get(f, &ci.ops[0]).(structV)[ci.n])
	case kIndexAddr:
		f.regs[ci.dst] = m.indexAddr(f, ci)
	case kIndex:
		f.regs[ci.dst] = m.index(f, ci)
	case kLookup:
		f.regs[ci.dst] = m.lookup(f, ci)
	case kRange:
		f.regs[ci.dst] = m.makeRange(m.get(f, &ci.ops[0]))
	case kNext:
		f.regs[ci.dst] = m.next(m.get(f, &ci.ops[0]), ci.typ)
	case kTypeAssert:
		f.regs[ci.dst] = m.typeAssert(m.get(f, &ci.ops[0]).(ifaceV), ci.in.(*ssa.TypeAssert))
	case kExtract:
		f.regs[ci.dst] = m.get(f, &ci.ops[0]).(tupleV)[ci.n]
	case kStore:
		p, ok := m.get(f, &ci.ops[0]).(Ptr)
		if !ok {
			m.unsupported("store through %T in %s", m.get(f, &ci.ops[0]), f.fi.name)
		}
		if p == nil {
			m.nilPanic()
		}
		if m.spec > 0 {
			panic(specFail{})
		}
		m.assign(p, m.get(f, &ci.ops[1]))
	case kMapUpdate:
		if m.spec > 0 {
			panic(specFail{})
		}
		mo := m.get(f, &ci.ops[0]).(*mapObj)
		if mo == nil {
			m.rtPanic("assignment to entry in nil map")
		}
		m.mapSet(mo, m.get(f, &ci.ops[1]), m.get(f, &ci.ops[2]))
	case kDefer:
		if m.spec > 0 {
			panic(specFail{})
		}
		fn := m.prepCall(f, ci)
		f.defers = append(f.defers, fn)
	case kRunDefers:
		m.runDefers(f)
		if f.pan != nil {
			p := f.pan
			panic(p)
		}
	case kPanic:
		if m.spec > 0 {
			panic(specFail{})
		}
		v := m.get(f, &ci.ops[0]).(ifaceV)
		panic(&goPanic{v: v, msg: m.panicMsg(v), stack: m.stackNames()})
	case kNop:
	default:
		m.unsupported("instruction %T in %s", ci.in, f.fi.name)
	}
}

func (m *Machine) panicMsg(v ifaceV) (s string) {
	defer func() {
		if r := recover(); r != nil {
			s = "panic value of type " + fmt.Sprint(v.t)
		}
	}()
	st := m.formatV(v, 'v', false)
	if st.isConc {
		return st.conc
	}
	return "symbolic panic value"
}

// assign stores v into *p keeping interior pointers valid.
func (m *Machine) assign(p Ptr, v Value) {
	switch x := v.(type) {
	case structV:
		if d, ok := (*p).(structV); ok && len(d) == len(x) {
			for i := range x {
				m.assign(&d[i], x[i])
			}
			return
		}
		v = copyVal(v)
	case arrV:
		if d, ok := (*p).(arrV); ok && len(d) == len(x) {
			for i := range x {
				m.assign(&d[i], x[i])
			}
			return
		}
		v = copyVal(v)
	}
	m.store(p, v)
}

func (m *Machine) prepCall(f *frame, ci *cinstr) func() {
	var common *ssa.CallCommon
	switch x := ci.in.(type) {
	case *ssa.Defer:
		common = &x.Call
	case *ssa.Call:
		common = &x.Call
	}
	var vals []Value
	for i := range ci.ops {
		vals = append(vals, m.get(f, &ci.ops[i]))
	}
	return func() { m.dispatch(ci, common, vals) }
}

func (m *Machine) doCall(f *frame, ci *cinstr) Value {
	if ci.pend != nil {
		if ci.callee == nil {
			ci.callee = m.info(ci.pend)
		}
		// package initialisers are run lazily
		if m.initing > 0 && ci.pend.Synthetic == "package initializer" {
			return nil
		}
		args := make([]Value, len(ci.ops))
		for i := range ci.ops {
			args[i] = m.get(f, &ci.ops[i])
		}
		return m.call(ci.callee, args, nil)
	}
	vals := make([]Value, len(ci.ops))
	for i := range ci.ops {
		vals[i] = m.get(f, &ci.ops[i])
	}
	return m.dispatch(ci, &ci.in.(*ssa.Call).Call, vals)
}

func (m *Machine) dispatch(ci *cinstr, common *ssa.CallCommon, vals []Value) Value {
	if ci.builtin != "" {
		return m.callBuiltin(ci, common, vals)
	}
	if ci.pend != nil {
		return m.call(m.info(ci.pend), vals, nil)
	}
	if common.IsInvoke() {
		iv, ok := vals[0].(ifaceV)
		if !ok {
			m.unsupported("invoke on %T", vals[0])
		}
		if iv.t == nil {
			m.nilPanic()
		}
		fn := m.method(iv.t, common.Method)
		args := make([]Value, len(vals))
		args[0] = iv.v
		copy(args[1:], vals[1:])
		return m.call(fn, args, nil)
	}
	return m.callClosure(vals[0].(*closure), vals[1:])
}

func (m *Machine) callClosure(c *closure, args []Value) Value {
	if c == nil {
		m.nilPanic()
	}
	if c.native != nil {
		if m.spec > 0 {
			panic(specFail{})
		}
		return c.native(m, args)
	}
	return m.call(m.info(c.fn), args, c.env)
}

func (m *Machine) method(t types.Type, meth *types.Func) *fnInfo {
	k := methKey{t, meth.Id()}
	if fi, ok := m.methods[k]; ok {
		return fi
	}
	fn := m.prog.lookupMethod(t, meth)
	if fn == nil {
		m.unsupported("no method %s on %s", meth.Name(), t)
	}
	fi := m.info(fn)
	m.methods[k] = fi
	return fi
}

func (m *Machine) methodByName(t types.Type, name string) *fnInfo {
	k := methKey{t, "#" + name}
	if fi, ok := m.methods[k]; ok {
		return fi
	}
	var fi *fnInfo
	if fn := m.prog.lookupMethodName(t, name); fn != nil {
		fi = m.info(fn)
	}
	m.methods[k] = fi
	return fi
}

func deref(t types.Type) types.Type {
	if p, ok := t.Underlying().(*types.Pointer); ok {
		return p.Elem()
	}
	return t
}

func (m *Machine) unop(f *frame, ci *cinstr) Value {
	x := m.get(f, &ci.ops[0])
	switch ci.op {
	case token.MUL:
		p, ok := x.(Ptr)
		if !ok {
			m.unsupported("load through %T in %s", x, f.fi.name)
		}
		if p == nil {
			m.nilPanic()
		}
		return copyVal(*p)
	case token.NOT:
		return m.c.Not(x.(*Term))
	case token.SUB:
		switch v := x.(type) {
		case *Term:
			return m.c.Un(OpNeg, v)
		case float64:
			return -v
		}
	case token.XOR:
		return m.c.Un(OpBvNot, x.(*Term))
	}
	m.unsupported("unop %v", ci.op)
	return nil
}

func (m *Machine) binop(op token.Token, t types.Type, x, y Value, ci *cinstr) Value {
	switch op {
	case token.EQL:
		return m.valEq(x, y)
	case token.NEQ:
		return m.c.Not(m.valEq(x, y))
	}
	switch a := x.(type) {
	case *Term:
		b := y.(*Term)
		if a.w == 0 {
			switch op {
			case token.AND:
				return m.c.And(a, b)
			case token.OR:
				return m.c.Or(a, b)
			}
			break
		}
		sg := isSigned(t)
		switch op {
		case token.ADD:
			return m.c.Bin(OpAdd, a, b)
		case token.SUB:
			return m.c.Bin(OpSub, a, b)
		case token.MUL:
			return m.c.Bin(OpMul, a, b)
		case token.QUO, token.REM:
			m.must(m.c.Not(m.c.Eq(b, m.c.Const(b.w, 0))), "integer divide by zero")
			o := OpUdiv
			switch {
			case op == token.QUO && sg:
				o = OpSdiv
			case op == token.REM && sg:
				o = OpSrem
			case op == token.REM:
				o = OpUrem
			}
			return m.c.Bin(o, a, b)
		case token.AND:
			return m.c.Bin(OpBvAnd, a, b)
		case token.OR:
			return m.c.Bin(OpBvOr, a, b)
		case token.XOR:
			return m.c.Bin(OpBvXor, a, b)
		case token.AND_NOT:
			return m.c.Bin(OpBvAnd, a, m.c.Un(OpBvNot, b))
		case token.SHL, token.SHR:
			if ci != nil {
				if bo, ok := ci.in.(*ssa.BinOp); ok && isSigned(bo.Y.Type()) && !b.isConst() {
					m.must(m.c.Not(m.c.cmp(OpSlt, b, m.c.Const(b.w, 0))), "negative shift amount")
				}
			}
			b = m.shiftCount(b, a.w)
			o := OpShl
			if op == token.SHR {
				o = OpLshr
				if sg {
					o = OpAshr
				}
			}
			return m.c.Bin(o, a, b)
		case token.LSS, token.LEQ, token.GTR, token.GEQ:
			if op == token.GTR || op == token.GEQ {
				a, b = b, a
			}
			strict := op == token.LSS || op == token.GTR
			switch {
			case strict && sg:
				return m.c.cmp(OpSlt, a, b)
			case strict:
				return m.c.cmp(OpUlt, a, b)
			case sg:
				return m.c.cmp(OpSle, a, b)
			default:
				return m.c.cmp(OpUle, a, b)
			}
		}
	case *Str:
		b := y.(*Str)
		switch op {
		case token.ADD:
			return m.c.concat(a, b)
		case token.LSS:
			return m.strLess(a, b)
		case token.GTR:
			return m.strLess(b, a)
		case token.LEQ:
			return m.c.Not(m.strLess(b, a))
		case token.GEQ:
			return m.c.Not(m.strLess(a, b))
		}
	case float64:
		b := y.(float64)
		switch op {
		case token.ADD:
			return a + b
		case token.SUB:
			return a - b
		case token.MUL:
			return a * b
		case token.QUO:
			return a / b
		case token.LSS:
			return m.c.Bool(a < b)
		case token.LEQ:
			return m.c.Bool(a <= b)
		case token.GTR:
			return m.c.Bool(a > b)
		case token.GEQ:
			return m.c.Bool(a >= b)
		}
	}
	m.unsupported("binop %v on %T", op, x)
	return nil
}

func (m *Machine) shiftCount(b *Term, w uint8) *Term {
	if b.isConst() {
		v := b.val
		if v > uint64(w) {
			v = uint64(w)
		}
		return m.c.Const(w, v)
	}
	if b.w <= w {
		return m.c.Resize(b, w, false)
	}
	return m.c.Ite(m.c.cmp(OpUlt, b, m.c.Const(b.w, uint64(w))), m.c.Resize(b, w, false), m.c.Const(w, uint64(w)))
}

// strEq decides equality, fixing lengths if it has to.
func (m *Machine) strEq(a, b *Str) *Term {
	if t := m.c.strEq(a, b); t != nil {
		return t
	}
	x, y := m.fixLen(a), m.fixLen(b)
	return m.c.strEq(m.c.fixedStr(x), m.c.fixedStr(y))
}

func (m *Machine) strLess(a, b *Str) *Term {
	if a.isConc && b.isConc {
		return m.c.Bool(a.conc < b.conc)
	}
	c := m.c
	fa, fb := c.flatten(a), c.flatten(b)
	if fa == nil || fb == nil {
		fa = &seg{bytes: m.fixLen(a)}
		fb = &seg{bytes: m.fixLen(b)}
		fa.n = c.Const(64, uint64(len(fa.bytes)))
		fb.n = c.Const(64, uint64(len(fb.bytes)))
	}
	n := len(fa.bytes)
	if len(fb.bytes) > n {
		n = len(fb.bytes)
	}
	r := c.cmp(OpUlt, fa.n, fb.n)
	z := c.Const(8, 0)
	for i := n - 1; i >= 0; i-- {
		x, y := z, z
		if i < len(fa.bytes) {
			x = fa.bytes[i]
		}
		if i < len(fb.bytes) {
			y = fb.bytes[i]
		}
		r = c.Ite(c.Eq(x, y), r, c.cmp(OpUlt, x, y))
	}
	return r
}

func (m *Machine) valEq(x, y Value) *Term {
	switch a := x.(type) {
	case *Term:
		return m.c.Eq(a, y.(*Term))
	case *Str:
		return m.strEq(a, y.(*Str))
	case Ptr:
		switch b := y.(type) {
		case Ptr:
			return m.c.Bool(a == b)
		}
		return m.c.F
	case float64:
		return m.c.Bool(a == y.(float64))
	case ifaceV:
		b, ok := y.(ifaceV)
		if !ok {
			m.unsupported("compare interface with %T", y)
		}
		if a.t == nil || b.t == nil {
			return m.c.Bool(a.t == nil && b.t == nil)
		}
		if !m.prog.identical(a.t, b.t) {
			return m.c.F
		}
		return m.valEq(a.v, b.v)
	case structV:
		b := y.(structV)
		ts := make([]*Term, len(a))
		for i := range a {
			ts[i] = m.valEq(a[i], b[i])
		}
		return m.c.And(ts...)
	case arrV:
		b := y.(arrV)
		ts := make([]*Term, len(a))
		for i := range a {
			ts[i] = m.valEq(a[i], b[i])
		}
		return m.c.And(ts...)
	case sliceV:
		b := y.(sliceV)
		if b.a == nil {
			return m.c.Bool(a.a == nil)
		}
		if a.a == nil {
			return m.c.Bool(b.a == nil)
		}
		m.rtPanic("comparing uncomparable type")
	case *mapObj:
		return m.c.Bool(a == y.(*mapObj))
	case *closure:
		b := y.(*closure)
		if a == nil || b == nil {
			return m.c.Bool(a == b)
		}
		m.rtPanic("comparing uncomparable type func")
	case unsafeV:
		b := y.(unsafeV)
		return m.c.Bool(a.v == b.v)
	case chanV:
		return m.c.T
	case *sdPtr:
		b, ok := y.(*sdPtr)
		return m.c.Bool(ok && a == b)
	}
	m.unsupported("compare %T", x)
	return nil
}

func (m *Machine) makeSlice(et types.Type, n, c int) []Value {
	a := make([]Value, c)
	if c > 0 {
		z := m.zero(et)
		switch z.(type) {
		case structV, arrV:
			for i := range a {
				a[i] = copyVal(z)
			}
		default:
			for i := range a {
				a[i] = z
			}
		}
	}
	return a[:n]
}

func (m *Machine) lenOf(v Value) *Term {
	switch x := v.(type) {
	case *Str:
		if n := m.c.strLen(x); n != nil {
			return n
		}
		return m.c.Const(64, uint64(len(m.fixLen(x))))
	case sliceV:
		return m.c.Const(64, uint64(len(x.a)))
	case *mapObj:
		if x == nil {
			return m.c.Const(64, 0)
		}
		return m.c.Const(64, uint64(x.n))
	case arrV:
		return m.c.Const(64, uint64(len(x)))
	case Ptr:
		return m.lenOf(*x)
	case chanV:
		return m.c.Const(64, 0)
	}
	m.unsupported("len of %T", v)
	return nil
}

func (m *Machine) idx64(t *Term, typ types.Type) *Term { return m.c.Resize(t, 64, isSigned(typ)) }

func (m *Machine) boundsMsg() string { return "index out of range" }

func (m *Machine) indexAddr(f *frame, ci *cinstr) Value {
	x := m.get(f, &ci.ops[0])
	i := m.idx64(m.get(f, &ci.ops[1]).(*Term), ci.typ)
	var a []Value
	switch s := x.(type) {
	case sliceV:
		a = s.a
	case Ptr:
		if s == nil {
			m.nilPanic()
		}
		a = (*s).(arrV)
	default:
		m.unsupported("IndexAddr of %T", x)
	}
	if !i.isConst() {
		m.must(m.c.cmp(OpUlt, i, m.c.Const(64, uint64(len(a)))), "index out of range")
		if m.spec > 0 {
			panic(specFail{})
		}
		if len(a) == 0 {
			m.rtPanic("index out of range")
		}
		// a table of constants read through a symbolic index is loaded as one term
		if tp := m.tablePtr(f, ci, a, i); tp != nil {
			return tp
		}
		return Ptr(&a[m.concretize(i)])
	}
	k := int64(i.val)
	if k < 0 || k >= int64(len(a)) {
		m.rtPanic(fmt.Sprintf("index out of range [%d] with length %d", k, len(a)))
	}
	return Ptr(&a[k])
}

// tablePtr handles &a[i] used only for one load: the result is a fresh cell holding the selected element.
func (m *Machine) tablePtr(f *frame, ci *cinstr, a []Value, i *Term) Ptr {
	ia := ci.in.(*ssa.IndexAddr)
	refs := ia.Referrers()
	if refs == nil {
		return nil
	}
	for _, r := range *refs {
		u, ok := r.(*ssa.UnOp)
		if !ok || u.Op != token.MUL || u.Block() != ia.Block() {
			return nil
		}
		// no store or call between
		on := false
		for _, in := range ia.Block().Instrs {
			if in == ssa.Instruction(ia) {
				on = true
				continue
			}
			if in == r.(ssa.Instruction) {
				break
			}
			if on {
				switch in.(type) {
				case *ssa.Store, *ssa.Call, *ssa.MapUpdate:
					return nil
				}
			}
		}
	}
	if len(a) > 512 {
		return nil
	}
	t := m.selectTerm(a, i)
	if t == nil {
		return nil
	}
	var v Value = t
	return &v
}

func (m *Machine) selectTerm(a []Value, i *Term) *Term {
	for _, e := range a {
		if _, ok := e.(*Term); !ok {
			return nil
		}
	}
	if len(a) == 0 {
		return nil
	}
	// group by value to keep the term small
	last := a[len(a)-1].(*Term)
	cnt := map[*Term]int{}
	for _, e := range a {
		cnt[e.(*Term)]++
	}
	for t, n := range cnt {
		if n > cnt[last] || (n == cnt[last] && t.id < last.id) {
			last = t
		}
	}
	r := last
	for k := len(a) - 1; k >= 0; k-- {
		e := a[k].(*Term)
		if e == last {
			continue
		}
		r = m.c.Ite(m.c.Eq(i, m.c.Const(64, uint64(k))), e, r)
	}
	return r
}

func (m *Machine) index(f *frame, ci *cinstr) Value {
	x := m.get(f, &ci.ops[0])
	i := m.idx64(m.get(f, &ci.ops[1]).(*Term), ci.typ)
	switch s := x.(type) {
	case *Str:
		return m.strIndex(s, i)
	case arrV:
		if !i.isConst() {
			m.must(m.c.cmp(OpUlt, i, m.c.Const(64, uint64(len(s)))), "index out of range")
			if t := m.selectTerm(s, i); t != nil {
				return t
			}
			if m.spec > 0 {
				panic(specFail{})
			}
			return copyVal(s[m.concretize(i)])
		}
		k := int64(i.val)
		if k < 0 || k >= int64(len(s)) {
			m.rtPanic("index out of range")
		}
		return copyVal(s[k])
	}
	m.unsupported("Index of %T", x)
	return nil
}

func (m *Machine) strIndex(s *Str, i *Term) Value {
	c := m.c
	if s.isConc && i.isConst() {
		if i.val >= uint64(len(s.conc)) {
			m.rtPanic(fmt.Sprintf("index out of range [%d] with length %d", int64(i.val), len(s.conc)))
		}
		return c.Const(8, uint64(s.conc[i.val]))
	}
	if b, ok := c.fixed(s); ok {
		if i.isConst() {
			if i.val >= uint64(len(b)) {
				m.rtPanic(fmt.Sprintf("index out of range [%d] with length %d", int64(i.val), len(b)))
			}
			return b[i.val]
		}
		m.must(c.cmp(OpUlt, i, c.Const(64, uint64(len(b)))), "index out of range")
		if len(b) <= 64 {
			var r *Term
			for k := len(b) - 1; k >= 0; k-- {
				if r == nil {
					r = b[k]
				} else {
					r = c.Ite(c.Eq(i, c.Const(64, uint64(k))), b[k], r)
				}
			}
			return r
		}
		if m.spec > 0 {
			panic(specFail{})
		}
		return b[m.concretize(i)]
	}
	// fixed prefix
	if i.isConst() && s.segs[0].kind == segBytes && i.val < uint64(len(s.segs[0].bytes)) {
		return s.segs[0].bytes[i.val]
	}
	if fl := c.flatten(s); fl != nil {
		m.must(c.cmp(OpUlt, i, fl.n), "index out of range")
		if i.isConst() {
			if i.val >= uint64(len(fl.bytes)) {
				m.rtPanic("index out of range")
			}
			return fl.bytes[i.val]
		}
		var r *Term
		for k := len(fl.bytes) - 1; k >= 0; k-- {
			if r == nil {
				r = fl.bytes[k]
			} else {
				r = c.Ite(c.Eq(i, c.Const(64, uint64(k))), fl.bytes[k], r)
			}
		}
		return r
	}
	b := m.fixLen(s)
	return m.strIndex(c.fixedStr(b), i)
}

func (m *Machine) doSlice(f *frame, ci *cinstr) Value {
	x := m.get(f, &ci.ops[0])
	opt := func(k int) *Term {
		v := m.get(f, &ci.ops[k])
		if v == nil {
			return nil
		}
		t := v.(*Term)
		si := ci.in.(*ssa.Slice)
		tv := []ssa.Value{si.Low, si.High, si.Max}[k-1]
		return m.idx64(t, tv.Type())
	}
	lo, hi, max := opt(1), opt(2), opt(3)
	switch s := x.(type) {
	case *Str:
		return m.strSlice(s, lo, hi)
	case sliceV:
		return m.sliceSlice(s.a, lo, hi, max)
	case Ptr:
		if s == nil {
			m.nilPanic()
		}
		return m.sliceSlice([]Value((*s).(arrV)), lo, hi, max)
	}
	m.unsupported("Slice of %T", x)
	return nil
}

func (m *Machine) sliceSlice(a []Value, lo, hi, max *Term) Value {
	if m.spec > 0 {
		for _, t := range []*Term{lo, hi, max} {
			if t != nil && !t.isConst() {
				panic(specFail{})
			}
		}
	}
	cc := func(t *Term, def int) int64 {
		if t == nil {
			return int64(def)
		}
		return int64(m.concretize(t))
	}
	l := cc(lo, 0)
	h := cc(hi, len(a))
	x := cc(max, cap(a))
	if l < 0 || h < l || x < h || x > int64(cap(a)) {
		m.rtPanic(fmt.Sprintf("slice bounds out of range [%d:%d:%d] with capacity %d", l, h, x, cap(a)))
	}
	if a == nil {
		return sliceV{}
	}
	return sliceV{a: a[l:h:x]}
}

func (m *Machine) strSlice(s *Str, lo, hi *Term) Value {
	c := m.c
	if lo == nil {
		lo = c.Const(64, 0)
	}
	if s.isConc && lo.isConst() && (hi == nil || hi.isConst()) {
		h := uint64(len(s.conc))
		if hi != nil {
			h = hi.val
		}
		if h > uint64(len(s.conc)) || lo.val > h {
			m.rtPanic(fmt.Sprintf("slice bounds out of range [%d:%d] with length %d", int64(lo.val), int64(h), len(s.conc)))
		}
		return cstr(s.conc[lo.val:h])
	}
	if lo.isConst() && lo.val == 0 && hi == nil {
		return s
	}
	n := c.strLen(s)
	if n == nil {
		s = c.fixedStr(m.fixLen(s))
		n = c.strLen(s)
	}
	if hi == nil {
		hi = n
	}
	m.must(c.cmp(OpUle, hi, n), "slice bounds out of range")
	m.must(c.cmp(OpUle, lo, hi), "slice bounds out of range")
	if b, ok := c.fixed(s); ok {
		if m.spec > 0 && (!lo.isConst() || !hi.isConst()) {
			panic(specFail{})
		}
		l, h := m.concretize(lo), m.concretize(hi)
		return c.fixedStr(b[l:h])
	}
	if lo.isConst() {
		if hi == n && s.segs[0].kind == segBytes && lo.val <= uint64(len(s.segs[0].bytes)) {
			return c.mkStr(append([]seg{{kind: segBytes, bytes: s.segs[0].bytes[lo.val:]}}, s.segs[1:]...))
		}
		if fl := c.flatten(s); fl != nil && lo.val <= uint64(len(fl.bytes)) {
			if hi == n {
				return c.mkStr([]seg{{kind: segAtom, bytes: fl.bytes[lo.val:], n: c.Bin(OpSub, n, lo)}})
			}
			if hi.isConst() && hi.val <= uint64(len(fl.bytes)) {
				return c.fixedStr(fl.bytes[lo.val:hi.val])
			}
		}
	}
	if m.spec > 0 {
		panic(specFail{})
	}
	b := m.fixLen(s)
	l, h := m.concretize(lo), m.concretize(hi)
	if h > uint64(len(b)) || l > h {
		panic(pathEnd{"infeasible", ""})
	}
	return c.fixedStr(b[l:h])
}

func (m *Machine) typeAssert(x ifaceV, ta *ssa.TypeAssert) Value {
	ok := false
	var v Value
	if x.t != nil {
		if it, isI := ta.AssertedType.Underlying().(*types.Interface); isI {
			ok = m.prog.implements(x.t, it)
			v = x
		} else {
			ok = m.prog.identical(x.t, ta.AssertedType)
			v = x.v
		}
	}
	if ta.CommaOk {
		if !ok {
			return tupleV{m.zero(ta.AssertedType), m.c.F}
		}
		return tupleV{v, m.c.T}
	}
	if !ok {
		m.rtPanic(fmt.Sprintf("interface conversion: interface is %v, not %v", x.t, ta.AssertedType))
	}
	return v
}

func (m *Machine) convert(x Value, from, to types.Type) Value {
	fu, tu := from.Underlying(), to.Underlying()
	if tp, ok := tu.(*types.Basic); ok {
		switch {
		case tp.Kind() == types.UnsafePointer:
			if u, ok := x.(unsafeV); ok {
				return u
			}
			return unsafeV{x}
		case tp.Info()&types.IsString != 0:
			switch s := x.(type) {
			case *Str:
				return s
			case *Term:
				fb := fu.(*types.Basic)
				return m.runeStr(m.c.Resize(s, 64, fb.Info()&types.IsUnsigned == 0))
			case sliceV:
				et := fu.(*types.Slice).Elem().Underlying().(*types.Basic)
				if et.Kind() == types.Uint8 {
					b := make([]*Term, len(s.a))
					for i, e := range s.a {
						b[i] = e.(*Term)
					}
					return m.c.fixedStr(b)
				}
				r := emptyStr
				for _, e := range s.a {
					r = m.c.concat(r, m.runeStr(m.c.Resize(e.(*Term), 64, true)))
				}
				return r
			}
		case tp.Info()&types.IsInteger != 0:
			switch v := x.(type) {
			case *Term:
				return m.c.Resize(v, intWidth(tp), isSigned(from))
			case float64:
				if tp.Info()&types.IsUnsigned != 0 {
					return m.c.Const(intWidth(tp), uint64(v))
				}
				return m.c.Const(intWidth(tp), uint64(int64(v)))
			case unsafeV:
				return m.c.Const(64, 0xdead0000)
			}
		case tp.Info()&types.IsFloat != 0:
			switch v := x.(type) {
			case float64:
				if tp.Kind() == types.Float32 {
					return float64(float32(v))
				}
				return v
			case *Term:
				k := m.concretize(v)
				if isSigned(from) {
					return float64(sext64(k, v.w))
				}
				return float64(k)
			}
		}
	}
	switch t := tu.(type) {
	case *types.Slice:
		if s, ok := x.(*Str); ok {
			if m.spec > 0 {
				panic(specFail{})
			}
			et := t.Elem().Underlying().(*types.Basic)
			if et.Kind() == types.Uint8 {
				b := m.fixLen(s)
				n := len(b)
				a := make([]Value, n, roundSize(n))
				for i := range b {
					a[i] = b[i]
				}
				full := a[:cap(a)]
				for i := n; i < len(full); i++ {
					full[i] = m.c.Const(8, 0)
				}
				return sliceV{a: a}
			}
			var a []Value
			b := m.fixLen(s)
			for p := 0; p < len(b); {
				r, n := m.decodeRune(b[p:])
				a = append(a, r)
				p += n
			}
			if a == nil {
				a = []Value{}
			}
			return sliceV{a: a}
		}
	case *types.Pointer:
		if u, ok := x.(unsafeV); ok {
			if u.v == nil {
				return Ptr(nil)
			}
			if p, ok := u.v.(Ptr); ok {
				// reinterpretation is only allowed for identical layouts; the caller's
				// later use will fail loudly if it is not
				return p
			}
			return u.v
		}
	}
	m.unsupported("convert %v to %v", from, to)
	return nil
}

// decodeRune decodes one rune from fixed-length bytes, forking as needed.
func (m *Machine) decodeRune(b []*Term) (*Term, int) {
	if m.branch(m.c.cmp(OpUlt, b[0], m.c.Const(8, 0x80))) {
		return m.c.Resize(b[0], 32, false), 1
	}
	fi := m.prog.fn("unicode/utf8", "DecodeRuneInString")
	k := len(b)
	if k > 4 {
		k = 4
	}
	r := m.call(m.info(fi), []Value{m.c.fixedStr(b[:k])}, nil).(tupleV)
	return r[0].(*Term), int(m.concretize(r[1].(*Term)))
}

func (m *Machine) runeStr(r *Term) *Str {
	if r.isConst() {
		v := int64(r.val)
		if v < 0 || v > 0x10ffff {
			v = 0xfffd
		}
		return cstr(string(rune(v)))
	}
	c := m.c
	lt := func(n uint64) bool { return m.branch(c.cmp(OpUlt, r, c.Const(64, n))) }
	by := func(t *Term, or uint64) *Term {
		return c.Resize(c.Bin(OpBvOr, t, c.Const(64, or)), 8, false)
	}
	sh := func(n uint64) *Term { return c.Bin(OpLshr, r, c.Const(64, n)) }
	lo6 := func(t *Term) *Term { return c.Bin(OpBvAnd, t, c.Const(64, 0x3f)) }
	switch {
	case lt(0x80):
		return c.fixedStr([]*Term{c.Resize(r, 8, false)})
	case lt(0x800):
		return c.fixedStr([]*Term{by(sh(6), 0xc0), by(lo6(r), 0x80)})
	case lt(0x10000):
		if m.branch(c.And(c.cmp(OpUle, c.Const(64, 0xd800), r), c.cmp(OpUle, r, c.Const(64, 0xdfff)))) {
			return cstr("\ufffd")
		}
		return c.fixedStr([]*Term{by(sh(12), 0xe0), by(lo6(sh(6)), 0x80), by(lo6(r), 0x80)})
	case lt(0x110000):
		return c.fixedStr([]*Term{by(sh(18), 0xf0), by(lo6(sh(12)), 0x80), by(lo6(sh(6)), 0x80), by(lo6(r), 0x80)})
	}
	return cstr("\ufffd")
}

// maps

func (m *Machine) newMap(kt, vt types.Type) *mapObj {
	epoch := m.epoch
	if m.initing > 0 {
		epoch = -1 // a package-level map outlives the path, so that writes to it are undone
	}
	return &mapObj{idx: map[interface{}]int{}, kt: kt, vt: vt, epoch: epoch}
}

func (m *Machine) mapFind(mo *mapObj, k Value) *mapEntry {
	if mo == nil || mo.n == 0 {
		return nil
	}
	if ck, ok := concreteKey(k); ok && mo.symKeys == 0 {
		if i, ok := mo.idx[ck]; ok {
			return mo.entries[i]
		}
		return nil
	}
	if m.spec > 0 {
		panic(specFail{})
	}
	var conds []*Term
	var ents []*mapEntry
	none := m.c.T
	for _, e := range mo.entries {
		if !e.live {
			continue
		}
		q := m.valEq(k, e.k)
		if q.isFalse() {
			continue
		}
		if q.isTrue() {
			return e
		}
		conds = append(conds, q)
		ents = append(ents, e)
		none = m.c.And(none, m.c.Not(q))
	}
	if len(conds) == 0 {
		return nil
	}
	conds = append(conds, none)
	i := m.choose(conds)
	if i == len(ents) {
		return nil
	}
	return ents[i]
}

func (m *Machine) mapLog(mo *mapObj, fn func()) {
	if m.initing == 0 && mo.epoch != m.epoch {
		m.log = append(m.log, undo{fn: fn})
	}
}

func (m *Machine) mapSet(mo *mapObj, k, v Value) {
	if e := m.mapFind(mo, k); e != nil {
		old := e.v
		m.mapLog(mo, func() { e.v = old })
		e.v = copyVal(v)
		return
	}
	e := &mapEntry{k: copyVal(k), v: copyVal(v), live: true}
	mo.entries = append(mo.entries, e)
	mo.n++
	ck, conc := concreteKey(k)
	if conc {
		mo.idx[ck] = len(mo.entries) - 1
	} else {
		mo.symKeys++
	}
	m.mapLog(mo, func() {
		mo.entries = mo.entries[:len(mo.entries)-1]
		mo.n--
		if conc {
			delete(mo.idx, ck)
		} else {
			mo.symKeys--
		}
	})
}

func (m *Machine) mapDelete(mo *mapObj, k Value) {
	e := m.mapFind(mo, k)
	if e == nil {
		return
	}
	e.live = false
	mo.n--
	ck, conc := concreteKey(e.k)
	var pos int
	if conc {
		pos = mo.idx[ck]
		delete(mo.idx, ck)
	} else {
		mo.symKeys--
	}
	m.mapLog(mo, func() {
		e.live = true
		mo.n++
		if conc {
			mo.idx[ck] = pos
		} else {
			mo.symKeys++
		}
	})
}

func (m *Machine) lookup(f *frame, ci *cinstr) Value {
	x := m.get(f, &ci.ops[0])
	k := m.get(f, &ci.ops[1])
	lk := ci.in.(*ssa.Lookup)
	if s, ok := x.(*Str); ok {
		return m.strIndex(s, m.idx64(k.(*Term), lk.Index.Type()))
	}
	mo := x.(*mapObj)
	e := m.mapFind(mo, k)
	var v Value
	if e != nil {
		v = copyVal(e.v)
	} else {
		v = m.zero(lk.X.Type().Underlying().(*types.Map).Elem())
	}
	if lk.CommaOk {
		return tupleV{v, m.c.Bool(e != nil)}
	}
	return v
}

func (m *Machine) makeRange(x Value) Value {
	if m.spec > 0 {
		panic(specFail{})
	}
	switch s := x.(type) {
	case *Str:
		return &strIter{b: m.fixLen(s)}
	case *mapObj:
		return &mapIter{m: s, perm: m.mapPerm > 0 && m.initing == 0, done: map[*mapEntry]bool{}}
	}
	m.unsupported("range over %T", x)
	return nil
}

func (m *Machine) next(x Value, typ types.Type) Value {
	if m.spec > 0 {
		panic(specFail{})
	}
	switch it := x.(type) {
	case *strIter:
		if it.pos >= len(it.b) {
			return tupleV{m.c.F, m.c.Const(64, 0), m.c.Const(32, 0)}
		}
		p := it.pos
		r, n := m.decodeRune(it.b[p:])
		it.pos += n
		return tupleV{m.c.T, m.c.Const(64, uint64(p)), r}
	case *mapIter:
		tt := typ.(*types.Tuple)
		end := tupleV{m.c.F, nil, nil}
		end[1] = m.zeroOr(tt.At(1).Type())
		end[2] = m.zeroOr(tt.At(2).Type())
		if it.m == nil {
			return end
		}
		var rest []*mapEntry
		for _, e := range it.m.entries {
			if e.live && !it.done[e] {
				rest = append(rest, e)
				if !it.perm {
					break
				}
			}
		}
		if len(rest) == 0 {
			return end
		}
		e := rest[0]
		if n := len(rest); it.perm && n > 1 {
			if len(it.done) == 0 && n > m.ex.fullOrders() {
				// larger maps: in order, in reverse, or one of the entries moved to the front or to the end
				it.big, it.plan = true, m.pick(2*n)
				it.first = n
			}
			if !it.big {
				e = rest[m.pick(n)]
			} else {
				e = rest[it.choose(rest)]
			}
		}
		it.done[e] = true
		return tupleV{m.c.T, copyVal(e.k), copyVal(e.v)}
	}
	m.unsupported("next on %T", x)
	return nil
}

// choose picks the next entry of a large map. Plans: 0 in order, 1 in reverse, 2..n entry plan-1 first, n+1..2n-1 entry plan-n-1 last.
func (it *mapIter) choose(rest []*mapEntry) int {
	n := it.first
	switch {
	case it.plan == 1:
		return len(rest) - 1
	case it.plan >= 2 && it.plan <= n && len(it.done) == 0:
		return it.plan - 1
	case it.plan > n:
		if len(it.done) == 0 {
			it.last = rest[it.plan-n-1]
		}
		if rest[0] == it.last {
			return 1
		}
	}
	return 0
}

func (m *Machine) zeroOr(t types.Type) Value {
	if b, ok := t.(*types.Basic); ok && b.Kind() == types.Invalid {
		return nil
	}
	return m.zero(t)
}

// roundSize is the capacity Go gives a byte slice of n elements.
func roundSize(n int) int {
	if n == 0 {
		return 0
	}
	return int(roundupsize(uintptr(n)))
}

var sizeClasses = []uintptr{0, 8, 16, 24, 32, 48, 64, 80, 96, 112, 128, 144, 160, 176, 192, 208, 224, 240, 256, 288, 320, 352, 384, 416, 448, 480, 512, 576, 640, 704, 768, 896, 1024, 1152, 1280, 1408, 1536, 1792, 2048, 2304, 2688, 3072, 3200, 3456, 4096, 4864, 5120, 5376, 6144, 6528, 6784, 6912, 8192, 9472, 9728, 10240, 10880, 12288, 13568, 14336, 16384, 18432, 19072, 20480, 21760, 24576, 27264, 28672, 32768}

func roundupsize(n uintptr) uintptr {
	if n <= 32768 {
		for _, s := range sizeClasses {
			if s >= n {
				return s
			}
		}
	}
	return (n + 8191) &^ 8191
}

func growCap(oldCap, newLen int, size uintptr) int {
	newcap := oldCap
	double := newcap + newcap
	if newLen > double {
		newcap = newLen
	} else if oldCap < 256 {
		newcap = double
	} else {
		for newcap < newLen {
			newcap += (newcap + 3*256) >> 2
		}
	}
	if size == 0 {
		return newcap
	}
	mem := roundupsize(uintptr(newcap) * size)
	return int(mem / size)
}

func (m *Machine) appendVals(s sliceV, add []Value, et types.Type) sliceV {
	n := len(s.a) + len(add)
	if len(add) == 0 {
		return s
	}
	if n <= cap(s.a) {
		r := s.a[:n]
		for i, v := range add {
			m.assign(&r[len(s.a)+i], v)
		}
		return sliceV{a: r}
	}
	c := growCap(cap(s.a), n, m.prog.sizeof(et))
	a := make([]Value, n, c)
	copy(a, s.a)
	for i := range s.a {
		a[i] = copyVal(s.a[i])
	}
	for i, v := range add {
		a[len(s.a)+i] = copyVal(v)
	}
	if c > n {
		z := m.zero(et)
		full := a[:c]
		for i := n; i < c; i++ {
			full[i] = copyVal(z)
		}
	}
	return sliceV{a: a}
}

func (m *Machine) strBytes(s *Str) []Value {
	b := m.fixLen(s)
	a := make([]Value, len(b))
	for i := range b {
		a[i] = b[i]
	}
	return a
}

func (m *Machine) callBuiltin(ci *cinstr, common *ssa.CallCommon, v []Value) Value {
	c := m.c
	switch ci.builtin {
	case "len":
		return m.lenOf(v[0])
	case "cap":
		switch x := v[0].(type) {
		case sliceV:
			return c.Const(64, uint64(cap(x.a)))
		case arrV:
			return c.Const(64, uint64(len(x)))
		case Ptr:
			return c.Const(64, uint64(len((*x).(arrV))))
		}
	}
	switch ci.builtin {
	case "min", "max":
		r := v[0]
		for _, y := range v[1:] {
			var lt *Term
			switch a := r.(type) {
			case *Term:
				op := OpUlt
				if isSigned(common.Args[0].Type()) {
					op = OpSlt
				}
				lt = c.cmp(op, y.(*Term), a)
				if ci.builtin == "max" {
					lt = c.cmp(op, a, y.(*Term))
				}
				r = c.Ite(lt, y.(*Term), a)
			case float64:
				if ci.builtin == "min" {
					r = math.Min(a, y.(float64))
				} else {
					r = math.Max(a, y.(float64))
				}
			default:
				m.unsupported("min/max of %T", r)
			}
		}
		return r
	case "real", "imag", "complex":
		m.unsupported("complex numbers")
	}
	if m.spec > 0 {
		panic(specFail{})
	}
	switch ci.builtin {
	case "append":
		s := v[0].(sliceV)
		et := common.Args[0].Type().Underlying().(*types.Slice).Elem()
		switch x := v[1].(type) {
		case sliceV:
			// copy first: the operands may overlap
			add := x.a
			if len(add) > 0 && len(s.a)+len(add) <= cap(s.a) {
				add = append([]Value(nil), x.a...)
				for i := range add {
					add[i] = copyVal(add[i])
				}
			}
			return m.appendVals(s, add, et)
		case *Str:
			return m.appendVals(s, m.strBytes(x), et)
		}
	case "copy":
		d := v[0].(sliceV)
		var src []Value
		switch x := v[1].(type) {
		case sliceV:
			src = append([]Value(nil), x.a...)
			for i := range src {
				src[i] = copyVal(src[i])
			}
		case *Str:
			src = m.strBytes(x)
		}
		n := len(d.a)
		if len(src) < n {
			n = len(src)
		}
		for i := 0; i < n; i++ {
			m.assign(&d.a[i], src[i])
		}
		return c.Const(64, uint64(n))
	case "delete":
		if mo := v[0].(*mapObj); mo != nil {
			m.mapDelete(mo, v[1])
		}
		return nil
	case "clear":
		switch x := v[0].(type) {
		case *mapObj:
			if x != nil {
				for _, e := range x.entries {
					if e.live {
						m.mapDelete(x, e.k)
					}
				}
			}
		case sliceV:
			et := common.Args[0].Type().Underlying().(*types.Slice).Elem()
			for i := range x.a {
				m.assign(&x.a[i], m.zero(et))
			}
		}
		return nil
	case "panic":
		iv := v[0].(ifaceV)
		panic(&goPanic{v: iv, msg: m.panicMsg(iv), stack: m.stackNames()})
	case "recover":
		if n := len(m.panicking); n > 0 {
			f := m.panicking[n-1]
			if f.pan != nil {
				p := f.pan
				f.pan = nil
				return p.v
			}
		}
		return ifaceV{}
	case "print", "println":
		return nil
	case "ssa:wrapnilchk":
		if p, ok := v[0].(Ptr); ok && p == nil {
			m.nilPanic()
		}
		return v[0]
	case "String": // unsafe.String
		n := int(m.concretize(v[1].(*Term)))
		switch p := v[0].(type) {
		case *sdPtr:
			if p.s != nil {
				return m.strSlice(p.s, nil, c.Const(64, uint64(n)))
			}
			b := make([]*Term, n)
			for i := range b {
				b[i] = p.a[i].(*Term)
			}
			return c.fixedStr(b)
		case Ptr:
			if n == 0 {
				return emptyStr
			}
		}
	case "SliceData":
		s := v[0].(sliceV)
		return &sdPtr{a: s.a}
	case "StringData":
		return &sdPtr{s: v[0].(*Str)}
	case "Slice":
		n := int(m.concretize(v[1].(*Term)))
		if p, ok := v[0].(*sdPtr); ok {
			if p.s != nil {
				return sliceV{a: m.strBytes(p.s)[:n]}
			}
			return sliceV{a: p.a[:n]}
		}
	}
	m.unsupported("builtin %s", ci.builtin)
	return nil
}

// fullOrders is the size up to which a map is iterated in every order.
func (ex *Explorer) fullOrders() int {
	if ex.deep {
		return 5
	}
	return 4
}
