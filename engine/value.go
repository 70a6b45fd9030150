package main

import (
	"fmt"
	"go/types"

	"golang.org/x/tools/go/ssa"
)

// Value is a run-time value of the interpreted program:
//
//	*Term (bool, integers)  *Str  float64  Ptr  structV  arrV  sliceV  *mapObj
//	ifaceV  *closure (nil = nil func)  tupleV  unsafeV  *mapIter  *strIter  chanV
type Value interface{}

// Ptr is a pointer to a variable slot.
type Ptr = *Value

type structV []Value
type arrV []Value
type tupleV []Value

type sliceV struct{ a []Value }

type ifaceV struct {
	t types.Type
	v Value
}

type closure struct {
	fn     *ssa.Function
	env    []Value
	native func(m *Machine, args []Value) Value
	name   string
}

type unsafeV struct{ v Value }

// ropeV is the hidden content of a strings.Builder.
type ropeV struct{ s *Str }

// sdPtr is the result of unsafe.SliceData / StringData.
type sdPtr struct {
	a []Value
	s *Str
}

type mapEntry struct {
	k, v Value
	live bool
}

type mapObj struct {
	entries []*mapEntry
	idx     map[interface{}]int // concrete keys
	symKeys int
	n       int
	epoch   int
	kt, vt  types.Type
}

type mapIter struct {
	m     *mapObj
	pos   int
	perm  bool
	done  map[*mapEntry]bool
	big   bool // one of some orders rather than any
	plan  int
	first int
	last  *mapEntry
}

type strIter struct {
	b   []*Term
	pos int
}

func isSigned(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsUnsigned == 0
}

func intWidth(b *types.Basic) uint8 {
	switch b.Kind() {
	case types.Bool, types.UntypedBool:
		return 0
	case types.Int8, types.Uint8:
		return 8
	case types.Int16, types.Uint16:
		return 16
	case types.Int32, types.Uint32, types.UntypedRune:
		return 32
	}
	return 64
}

func copyVal(v Value) Value {
	switch x := v.(type) {
	case structV:
		n := make(structV, len(x))
		for i, f := range x {
			n[i] = copyVal(f)
		}
		return n
	case arrV:
		n := make(arrV, len(x))
		for i, f := range x {
			n[i] = copyVal(f)
		}
		return n
	}
	return v
}

func (m *Machine) zero(t types.Type) Value {
	switch t := t.(type) {
	case *types.Named, *types.Alias:
		return m.zero(t.Underlying())
	case *types.Basic:
		switch {
		case t.Kind() == types.UnsafePointer:
			return unsafeV{}
		case t.Info()&types.IsString != 0:
			return emptyStr
		case t.Info()&types.IsBoolean != 0:
			return m.c.F
		case t.Info()&types.IsInteger != 0:
			return m.c.Const(intWidth(t), 0)
		case t.Info()&types.IsFloat != 0:
			return float64(0)
		case t.Info()&types.IsComplex != 0:
			return complex(0, 0)
		case t.Kind() == types.UntypedNil:
			return nil
		}
	case *types.Pointer:
		return Ptr(nil)
	case *types.Slice:
		return sliceV{}
	case *types.Map:
		return (*mapObj)(nil)
	case *types.Signature:
		return (*closure)(nil)
	case *types.Interface:
		return ifaceV{}
	case *types.Chan:
		return chanV{}
	case *types.Struct:
		s := make(structV, t.NumFields())
		for i := range s {
			s[i] = m.zero(t.Field(i).Type())
		}
		return s
	case *types.Array:
		n := int(t.Len())
		s := make(arrV, n)
		if n > 0 {
			z := m.zero(t.Elem())
			s[0] = z
			for i := 1; i < n; i++ {
				s[i] = copyVal(z)
			}
		}
		return s
	case *types.Tuple:
		if t.Len() == 1 {
			return m.zero(t.At(0).Type())
		}
		s := make(tupleV, t.Len())
		for i := range s {
			s[i] = m.zero(t.At(i).Type())
		}
		return s
	case *types.TypeParam:
		m.unsupported("zero of type parameter")
	}
	panic(fmt.Sprintf("zero: unexpected type %T %v", t, t))
}

type chanV struct{}

var emptyStr = cstr("")

// concreteKey returns a hashable Go key for a fully concrete key value.
func concreteKey(v Value) (interface{}, bool) {
	switch x := v.(type) {
	case *Term:
		if x.isConst() {
			return [2]uint64{uint64(x.w), x.val}, true
		}
	case *Str:
		if x.isConc {
			return x.conc, true
		}
	case Ptr:
		return x, true
	case float64:
		return x, true
	case ifaceV:
		if x.t == nil {
			return "nil-iface", true
		}
		if k, ok := concreteKey(x.v); ok {
			return fmt.Sprintf("%s|%v", x.t.String(), k), true
		}
	case structV:
		s := ""
		for _, f := range x {
			k, ok := concreteKey(f)
			if !ok {
				return nil, false
			}
			s += fmt.Sprintf("%T:%v|", k, k)
		}
		return s, true
	case arrV:
		s := ""
		for _, f := range x {
			k, ok := concreteKey(f)
			if !ok {
				return nil, false
			}
			s += fmt.Sprintf("%T:%v|", k, k)
		}
		return s, true
	}
	return nil, false
}
