package hcompare

import (
	"github.com/vektah/gqlparser/v2/ast"

	"github.com/CrowdStrike/gql/pkg/compare"
	"github.com/CrowdStrike/gql/zzverif/nd"
)

// ---- C01: the two versions are made from the same parts, put together in different orders.

// order is a permutation of 0..n-1, the same one for every list of that length.
type order struct{ k int }

func anyOrder(n int) order {
	f := 1
	for i := 2; i <= n; i++ {
		f *= i
	}
	return order{nd.Choice("order", f)}
}

func (o order) of(n int) []int {
	left := make([]int, n)
	for i := range left {
		left[i] = i
	}
	k := o.k
	out := make([]int, 0, n)
	for m := n; m > 0; m-- {
		j := k % m
		k /= m
		out = append(out, left[j])
		left = append(left[:j:j], left[j+1:]...)
	}
	return out
}

var sameOrder = order{0}

func (s *scn) noChange() {
	ch := compare.FindChangesInSchemas(s.o.doc, s.n.doc)
	nd.Obs("changes", len(ch))
	nd.Reach("compared")
	nd.Assert(len(ch) == 0, "no change is reported")
}

// both runs f for the old version in the written order and for the new one in another, or compares the old version with itself.
func (s *scn) both(n int, f func(sd *side, o order)) {
	f(s.o, sameOrder)
	if nd.Choice("self", 2) == 1 {
		s.n = s.o
		return
	}
	f(s.n, anyOrder(n))
}

// H_C01_definitions: Bounds: 3 definitions of any kinds and names of 1..3 bytes with one described member each, in any order.
func H_C01_definitions() {
	s := newScn()
	names := newNames("name", 3, 3)
	kinds := make([]ast.DefinitionKind, 3)
	desc := make([]string, 3)
	member := nd.Name("member", 2)
	for i := range names {
		kinds[i] = ast.DefinitionKind(nd.Pick("kind", "SCALAR", "OBJECT", "INTERFACE", "UNION", "ENUM", "INPUT_OBJECT"))
		desc[i] = nd.Str("desc", 2)
	}
	s.both(3, func(sd *side, o order) {
		for _, i := range o.of(3) {
			d := sd.def(false, kinds[i], names[i])
			d.Description = desc[i]
			// what does not belong to a kind is not compared for it; the parser never produces it
			switch kinds[i] {
			case ast.Object, ast.Interface, ast.InputObject:
				sd.field(d, member, named("A")).Description = desc[i]
			case ast.Enum:
				sd.value(d, member).Description = desc[i]
			case ast.Union:
				d.Types = []string{member}
			}
		}
	})
	s.noChange()
}

// H_C01_extensions: Bounds: 3 extension blocks with names of 1..2 bytes in any relation (equal names have equal kinds), beside definitions of the
// same names, each with one member; all member names different; blocks in any order.
func H_C01_extensions() {
	s := newScn()
	k := []ast.DefinitionKind{ast.Object, ast.Interface, ast.InputObject, ast.Enum, ast.Union, ast.Scalar}[nd.Choice("kind", 6)]
	m := newNames("member", 3, 2)
	n := make([]string, 3)
	for i := range n {
		n[i] = nd.Name("name", 2)
	}
	withDef := nd.Choice("defs", 2) == 1
	s.both(3, func(sd *side, o order) {
		if withDef {
			sd.field(sd.def(false, ast.Object, n[0]), "f", named("A"))
		}
		for _, i := range o.of(3) {
			d := sd.def(true, k, n[i])
			switch k {
			case ast.Enum:
				sd.value(d, m[i])
			case ast.Union:
				d.Types = []string{m[i]}
			case ast.Scalar:
				d.Directives = ast.DirectiveList{sd.directive(m[i])}
			default:
				sd.field(d, m[i], named("A"))
				if k == ast.Object {
					d.Interfaces = []string{m[i]}
					d.Directives = ast.DirectiveList{sd.directive(m[i])}
				}
			}
		}
	})
	s.noChange()
}

// H_C01_fields: Bounds: an object, interface or input object (definition or extension) with 3 fields in any order, any type reference of up to one list level,
// description, deprecation or other directive each.
func H_C01_fields() {
	s := newScn()
	ext, k := host(ast.Object, ast.Interface, ast.InputObject)
	names := newNames("field", 3, 3)
	desc, reason, nn := make([]string, 3), make([]string, 3), make([]bool, 3)
	dir := nd.Name("dir", 10)
	for i := range names {
		desc[i], nn[i] = nd.Str("desc", 1), nd.Bool("nn")
		reason[i] = ascii("reason", 1)
	}
	list := nd.Choice("list", 2) == 1
	s.both(3, func(sd *side, o order) {
		d := sd.def(ext, k, "T")
		for _, i := range o.of(3) {
			t := named("A")
			if list && i == 1 {
				t = &ast.Type{Elem: named("A")}
			}
			t.NonNull = nn[i]
			f := sd.field(d, names[i], t)
			f.Description = desc[i]
			if i == 2 {
				f.Directives = ast.DirectiveList{sd.directive("deprecated", sd.argument("reason", strVal(reason[i])))}
			} else {
				f.Directives = ast.DirectiveList{sd.directive(dir, sd.argument("a", strVal(reason[i])))}
			}
		}
	})
	s.noChange()
}

// H_C01_arguments: Bounds: 3 arguments of a field, of a directive definition or 3 input fields, in any order, any default of the value kinds of C14 for one of them.
func H_C01_arguments() {
	s := newScn()
	what := nd.Choice("what", 3)
	names := newNames("name", 3, 3)
	val := newVal("default", true)
	desc := nd.Str("desc", 2)
	nn := nd.Bool("nn")
	s.both(3, func(sd *side, o order) {
		var l ast.ArgumentDefinitionList
		for _, i := range o.of(3) {
			a := sd.arg(names[i], named("A"))
			if i == 0 {
				a.DefaultValue = val.v
			}
			if i == 1 {
				a.Description = desc
				a.Type.NonNull = nn
			}
			l = append(l, a)
		}
		switch what {
		case 0:
			sd.field(sd.def(false, ast.Object, "T"), "f", named("R")).Arguments = l
		case 1:
			sd.dirDef("d").Arguments = l
		case 2:
			d := sd.def(false, ast.InputObject, "T")
			for _, a := range l {
				f := sd.field(d, a.Name, a.Type)
				f.Description, f.DefaultValue = a.Description, a.DefaultValue
			}
		}
	})
	s.noChange()
}

// H_C01_members: Bounds: 3 enum values, union members or interfaces (definition or extension), in any order, names of 1..4 bytes.
func H_C01_members() {
	s := newScn()
	ext := nd.Choice("ext", 2) == 1
	what := nd.Choice("what", 3)
	names := newNames("name", 3, 4)
	desc := nd.Str("desc", 2)
	dep := nd.Choice("deprecated", 2) == 1
	s.both(3, func(sd *side, o order) {
		k := []ast.DefinitionKind{ast.Enum, ast.Union, ast.Object}[what]
		d := sd.def(ext, k, "T")
		for _, i := range o.of(3) {
			switch what {
			case 0:
				v := sd.value(d, names[i])
				v.Description = desc
				if dep && i == 1 {
					v.Directives = ast.DirectiveList{sd.directive("deprecated", sd.argument("reason", strVal("r")))}
				}
			case 1:
				d.Types = append(d.Types, names[i])
			case 2:
				d.Interfaces = append(d.Interfaces, names[i])
			}
		}
	})
	s.noChange()
}

// H_C01_directives: Bounds: 3 directive definitions in any order, names of 1..3 bytes, each with the same 3 locations in any order.
func H_C01_directives() {
	s := newScn()
	names := newNames("name", 3, 3)
	locs := []string{loc("loc"), loc("loc"), loc("loc")}
	distinct(locs)
	rep := nd.Bool("repeatable")
	desc := nd.Str("desc", 2)
	s.both(3, func(sd *side, o order) {
		for _, i := range o.of(3) {
			d := sd.dirDef(names[i])
			d.Description = desc
			d.IsRepeatable = rep
			d.Locations = nil
			for _, j := range o.of(3) {
				d.Locations = append(d.Locations, ast.DirectiveLocation(locs[j]))
			}
		}
	})
	s.noChange()
}

// H_C01_applied: Bounds: up to 3 applied directives with names of 1..2 bytes in any relation, up to 2 arguments each (in either order), on an object, interface,
// one of their fields or an input field; list, object, string and integer values.
func H_C01_applied() {
	s := newScn()
	n := 1 + nd.Choice("n", 3)
	names, args := make([]string, n), make([]int, n)
	vals := make([][]dval, n)
	for i := range names {
		names[i] = nd.Name("name", 2)
		args[i] = nd.Choice("args", 3)
		for j := 0; j < args[i]; j++ {
			if i == 0 && j == 0 {
				vals[i] = append(vals[i], newVal("val", false))
			} else {
				x := nd.StrOf("val", 1, 1, "0123456789")
				vals[i] = append(vals[i], dval{1, x, intVal(x)})
			}
		}
	}
	h := nd.Choice("host", 5)
	ext := h%2 == 1
	s.both(n, func(sd *side, o order) {
		var l ast.DirectiveList
		for _, i := range o.of(n) {
			d := sd.directive(names[i])
			for j := range vals[i] {
				if o.k%2 == 1 {
					j = len(vals[i]) - 1 - j
				}
				d.Arguments = append(d.Arguments, sd.argument([]string{"p", "q"}[j], vals[i][j].v))
			}
			l = append(l, d)
		}
		k := []ast.DefinitionKind{ast.Object, ast.Interface, ast.Object, ast.Interface, ast.InputObject}[h]
		d := sd.def(ext, k, "T")
		f := sd.field(d, "f", named("R"))
		if h < 2 {
			d.Directives = l
		} else {
			f.Directives = l
		}
	})
	s.noChange()
}

// H_C01_schema: Bounds: one schema block with all operations in any order, and up to 3 extension blocks in any order with one operation each (any of the
// three, each once), types of 1..3 bytes.
func H_C01_schema() {
	s := newScn()
	types := []string{nd.Name("type", 3), nd.Name("type", 3), nd.Name("type", 3)}
	what := nd.Choice("what", 3)
	s.both(3, func(sd *side, o order) {
		op := func(i int) *ast.OperationTypeDefinition {
			return &ast.OperationTypeDefinition{Operation: ops[i], Type: types[i], Position: sd.pos(3)}
		}
		block := &ast.SchemaDefinition{Position: sd.pos(8)}
		if what == 0 {
			for _, i := range o.of(3) {
				block.OperationTypes = append(block.OperationTypes, op(i))
			}
			sd.doc.Schema = append(sd.doc.Schema, block)
			return
		}
		if what == 1 {
			block.OperationTypes = append(block.OperationTypes, op(0))
			sd.doc.Schema = append(sd.doc.Schema, block)
		}
		for _, i := range o.of(3) {
			x := &ast.SchemaDefinition{Position: sd.pos(8)}
			if what == 1 && i == 0 {
				x.Directives = ast.DirectiveList{sd.directive("x")}
			} else {
				x.OperationTypes = append(x.OperationTypes, op(i))
			}
			sd.doc.SchemaExtension = append(sd.doc.SchemaExtension, x)
		}
	})
	s.noChange()
}
