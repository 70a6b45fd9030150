package hcompare

import (
	"github.com/vektah/gqlparser/v2/ast"

	"github.com/CrowdStrike/gql/pkg/compare"
	"github.com/CrowdStrike/gql/zzverif/nd"
)

const (
	brk = compare.Breaking
	dng = compare.Dangerous
	non = compare.NonBreaking

	// anySeverity stands for a severity the property leaves open.
	anySeverity = compare.Criticality(-1)
)

// small bounds the lists to two members.
var small bool

// counts picks how many members the old and the new version have.
func counts(q, d int) (int, int) {
	m := tier(q, d)
	if small && m > 2 {
		m = 2
	}
	return nd.Choice("old", m+1), nd.Choice("new", m+1)
}

// ---- C04

func scTypes() *scn {
	s := newScn("TYPE_ADDED", "TYPE_REMOVED", "TYPE_KIND_CHANGED")
	no, nn := counts(2, 3)
	ext := nd.Choice("ext", 2) == 1
	on, nw := newNames("old", no, 4), newNames("new", nn, 4)
	ks := func(l string) ast.DefinitionKind {
		return ast.DefinitionKind(nd.Pick(l, "SCALAR", "OBJECT", "INTERFACE", "UNION", "ENUM", "INPUT_OBJECT"))
	}
	ok, nk := make([]ast.DefinitionKind, no), make([]ast.DefinitionKind, nn)
	for i, x := range on {
		ok[i] = ks("oldkind")
		d := s.o.def(ext, ok[i], x)
		d.Description = nd.Str("desc", 1)
	}
	for i, x := range nw {
		nk[i] = ks("newkind")
		s.n.def(ext, nk[i], x)
	}
	for i, x := range on {
		s.expect("TYPE_REMOVED", brk, x, !in(nw, x), x)
		chg := false
		for j, y := range nw {
			chg = nd.Or(chg, nd.And(x == y, ok[i] != nk[j]))
		}
		s.expect("TYPE_KIND_CHANGED", brk, x, chg, x)
	}
	for _, y := range nw {
		s.expect("TYPE_ADDED", non, y, !in(on, y), y)
	}
	return s
}

// scTypesBoth has definitions and extensions side by side, with any names in common.
func scTypesBoth() *scn {
	s := newScn("TYPE_ADDED", "TYPE_REMOVED", "TYPE_KIND_CHANGED")
	var od, oe, nw, ne []string
	for _, x := range []struct {
		label string
		sd    *side
		ext   bool
		names *[]string
	}{{"od", s.o, false, &od}, {"oe", s.o, true, &oe}, {"nd", s.n, false, &nw}, {"ne", s.n, true, &ne}} {
		if nd.Choice(x.label+".n", 2) == 1 {
			*x.names = append(*x.names, nd.Name(x.label, 3))
			x.sd.def(x.ext, ast.Object, (*x.names)[0])
		}
	}
	one := func(o, n []string) {
		for _, x := range o {
			s.exps = append(s.exps, exp{"TYPE_REMOVED", brk, x, []string{x}, nd.If(in(n, x), 0, 1)})
		}
		for _, x := range n {
			s.exps = append(s.exps, exp{"TYPE_ADDED", non, x, []string{x}, nd.If(in(o, x), 0, 1)})
		}
	}
	one(od, nw)
	one(oe, ne)
	return s
}

// H_C04_types: Bounds: up to 2 types per version (thorough 3), all definitions or all extensions, any kinds, names of 1..4 bytes.
func H_C04_types() { scTypes().check() }

// H_C04_both: Bounds: up to one definition and one extension per version, names of 1..3 bytes in any relation.
func H_C04_both() { scTypesBoth().check() }

// ---- C05

func scFields() *scn {
	s := newScn("FIELD_ADDED", "FIELD_REMOVED")
	ext, k := host(ast.Object, ast.Interface)
	t := nd.Name("type", 4)
	no, nn := counts(3, 4)
	on, nw := newNames("old", no, 4), newNames("new", nn, 4)
	od, ndf := s.o.def(ext, k, t), s.n.def(ext, k, t)
	dep := nd.Choice("deprecated", 3) // the first field of a version is deprecated
	for i, x := range on {
		f := s.o.field(od, x, &ast.Type{NamedType: nd.Pick("ot", "A", "B"), NonNull: nd.Bool("onn")})
		if i == 0 && dep == 1 {
			f.Directives = ast.DirectiveList{s.o.directive("deprecated")}
		}
	}
	for i, x := range nw {
		f := s.n.field(ndf, x, &ast.Type{NamedType: nd.Pick("nt", "A", "B"), NonNull: nd.Bool("nnn")})
		if i == 0 && dep == 2 {
			f.Directives = ast.DirectiveList{s.n.directive("deprecated")}
		}
	}
	for _, x := range on {
		s.expect("FIELD_REMOVED", brk, t+"."+x, !in(nw, x), t, x)
	}
	for _, y := range nw {
		s.expect("FIELD_ADDED", non, t+"."+y, !in(on, y), t, y)
	}
	return s
}

// H_C05_fields: Bounds: one object or interface (definition or extension) with up to 3 fields per version (thorough 4), names of
// 1..4 bytes, nullable or non-null types, the first field deprecated or not.
func H_C05_fields() { scFields().check() }

// ---- C06

func scArgs() *scn {
	s := newScn("FIELD_ARGUMENT_ADDED", "FIELD_ARGUMENT_REMOVED")
	ext, k := host(ast.Object, ast.Interface)
	t, fn := nd.Name("type", 3), nd.Name("field", 3)
	no, nn := counts(3, 4)
	on, nw := newNames("old", no, 4), newNames("new", nn, 4)
	of := s.o.field(s.o.def(ext, k, t), fn, named("A"))
	nf := s.n.field(s.n.def(ext, k, t), fn, named("A"))
	for _, x := range on {
		of.Arguments = append(of.Arguments, s.o.arg(x, &ast.Type{NamedType: "A", NonNull: nd.Bool("onn")}))
	}
	for i, y := range nw {
		nnull := nd.Bool("nnn")
		ty := &ast.Type{NamedType: "A", NonNull: nnull}
		if nd.Choice("list", 2) == 1 {
			ty = &ast.Type{Elem: &ast.Type{NamedType: "A", NonNull: nd.Bool("elemnn")}, NonNull: nnull}
		}
		a := s.n.arg(y, ty)
		crit := brk
		if i == len(nw)-1 && nd.Choice("default", 2) == 1 {
			a.DefaultValue = intVal("1")
			crit = anySeverity
		}
		nf.Arguments = append(nf.Arguments, a)
		s.expect("FIELD_ARGUMENT_ADDED", crit, t+"."+fn+"."+y, nd.And(nnull, !in(on, y)), fn, y)
		s.expect("FIELD_ARGUMENT_ADDED", dng, t+"."+fn+"."+y, nd.And(!nnull, !in(on, y)), fn, y)
	}
	for _, x := range on {
		s.expect("FIELD_ARGUMENT_REMOVED", brk, t+"."+fn+"."+x, !in(nw, x), fn, x)
	}
	return s
}

// H_C06_args: Bounds: one field of an object or interface (definition or extension) with up to 3 arguments per version (thorough 4),
// names of 1..4 bytes, named or list types with any non-null markers, the last new one with or without a default value.
func H_C06_args() { scArgs().check() }

// ---- C07

func scInputs() *scn {
	s := newScn("INPUT_FIELD_ADDED", "INPUT_FIELD_REMOVED")
	ext := nd.Choice("ext", 2) == 1
	t := nd.Name("type", 4)
	no, nn := counts(3, 4)
	on, nw := newNames("old", no, 4), newNames("new", nn, 4)
	od, ndf := s.o.def(ext, ast.InputObject, t), s.n.def(ext, ast.InputObject, t)
	dep := nd.Choice("deprecated", 2)
	for i, x := range on {
		f := s.o.field(od, x, &ast.Type{NamedType: "A", NonNull: nd.Bool("onn")})
		if i == 0 && dep == 1 {
			f.Directives = ast.DirectiveList{s.o.directive("deprecated")}
		}
		s.expect("INPUT_FIELD_REMOVED", brk, t+"."+x, !in(nw, x), t, x)
	}
	for i, y := range nw {
		nnull := nd.Bool("nnn")
		ty := &ast.Type{NamedType: "A", NonNull: nnull}
		if nd.Choice("list", 2) == 1 {
			ty = &ast.Type{Elem: &ast.Type{NamedType: "A", NonNull: nd.Bool("elemnn")}, NonNull: nnull}
		}
		crit := brk
		f := s.n.field(ndf, y, ty)
		if i == len(nw)-1 && nd.Choice("default", 2) == 1 {
			f.DefaultValue = intVal("1")
			crit = anySeverity
		}
		s.expect("INPUT_FIELD_ADDED", crit, t+"."+y, nd.And(nnull, !in(on, y)), t, y)
		s.expect("INPUT_FIELD_ADDED", dng, t+"."+y, nd.And(!nnull, !in(on, y)), t, y)
	}
	return s
}

// H_C07_inputs: Bounds: one input object (definition or extension) with up to 3 fields per version (thorough 4), names of 1..4 bytes,
// named or list types with any non-null markers, the last new one with or without a default value, the first old field deprecated or not.
func H_C07_inputs() { scInputs().check() }

// ---- C08

func scEnum() *scn {
	s := newScn("ENUM_VALUE_ADDED", "ENUM_VALUE_REMOVED")
	ext := nd.Choice("ext", 2) == 1
	t := nd.Name("type", 4)
	no, nn := counts(3, 4)
	on, nw := newNames("old", no, 4), newNames("new", nn, 4)
	od, ndf := s.o.def(ext, ast.Enum, t), s.n.def(ext, ast.Enum, t)
	dep := nd.Choice("deprecated", 3)
	for i, x := range on {
		v := s.o.value(od, x)
		if i == 0 && dep == 1 {
			v.Directives = ast.DirectiveList{s.o.directive("deprecated")}
		}
		s.expect("ENUM_VALUE_REMOVED", brk, t+"."+x, !in(nw, x), t, x)
	}
	for i, y := range nw {
		v := s.n.value(ndf, y)
		if i == 0 && dep == 2 {
			v.Directives = ast.DirectiveList{s.n.directive("deprecated")}
		}
		s.expect("ENUM_VALUE_ADDED", dng, t+"."+y, !in(on, y), t, y)
	}
	return s
}

// H_C08_values: Bounds: one enum (definition or extension) with up to 3 values per version (thorough 4), names of 1..4 bytes,
// the first value deprecated or not.
func H_C08_values() { scEnum().check() }

// ---- C09

func scUnion() *scn {
	s := newScn("UNION_MEMBER_ADDED", "UNION_MEMBER_REMOVED")
	ext := nd.Choice("ext", 2) == 1
	t := nd.Name("type", 3)
	no, nn := counts(3, 4)
	on, nw := newNames("old", no, 4), newNames("new", nn, 4)
	s.o.def(ext, ast.Union, t).Types = on
	s.n.def(ext, ast.Union, t).Types = nw
	for _, x := range on {
		s.expect("UNION_MEMBER_REMOVED", brk, t, !in(nw, x), t, x)
	}
	for _, y := range nw {
		s.expect("UNION_MEMBER_ADDED", dng, t, !in(on, y), t, y)
	}
	return s
}

func scInterfaces() *scn {
	s := newScn("OBJECT_TYPE_INTERFACE_ADDED", "OBJECT_TYPE_INTERFACE_REMOVED")
	ext := nd.Choice("ext", 2) == 1
	t := nd.Name("type", 3)
	no, nn := counts(3, 4)
	on, nw := newNames("old", no, 4), newNames("new", nn, 4)
	s.o.def(ext, ast.Object, t).Interfaces = on
	s.n.def(ext, ast.Object, t).Interfaces = nw
	for _, x := range on {
		s.expect("OBJECT_TYPE_INTERFACE_REMOVED", brk, t, !in(nw, x), t, x)
	}
	for _, y := range nw {
		s.expect("OBJECT_TYPE_INTERFACE_ADDED", dng, t, !in(on, y), t, y)
	}
	return s
}

// H_C09_union: Bounds: one union (definition or extension) with up to 3 members per version (thorough 4), names of 1..4 bytes.
func H_C09_union() { scUnion().check() }

// H_C09_interfaces: Bounds: one object type (definition or extension) with up to 3 interfaces per version (thorough 4), names of 1..4 bytes.
func H_C09_interfaces() { scInterfaces().check() }
