package hcompare

import (
	"github.com/vektah/gqlparser/v2/ast"

	"github.com/CrowdStrike/gql/zzverif/nd"
)

// ---- C10

var dirScope = []string{"DIRECTIVE_REMOVED", "DIRECTIVE_ADDED", "DIRECTIVE_CHANGED", "DIRECTIVE_LOCATION_ADDED", "DIRECTIVE_LOCATION_REMOVED",
	"DIRECTIVE_REPEATABLE_ADDED", "DIRECTIVE_REPEATABLE_REMOVED", "DIRECTIVE_ARGUMENT_ADDED", "DIRECTIVE_ARGUMENT_REMOVED", "DIRECTIVE_ARGUMENT_VALUE_CHANGED"}

func scDirDefs() *scn {
	s := newScn(dirScope...)
	no, nn := counts(3, 4)
	on, nw := newNames("old", no, 4), newNames("new", nn, 4)
	for _, x := range on {
		s.o.dirDef(x)
		s.expect("DIRECTIVE_REMOVED", brk, "@"+x, !in(nw, x), x)
	}
	for _, x := range nw {
		s.n.dirDef(x)
		s.expect("DIRECTIVE_ADDED", non, "@"+x, !in(on, x), x)
	}
	return s
}

func loc(label string) string {
	return nd.Pick(label, "FIELD", "FIELD_DEFINITION", "OBJECT", "INPUT_OBJECT", "INPUT_FIELD_DEFINITION", "ENUM", "ENUM_VALUE", "QUERY")
}

func scLocations() *scn {
	s := newScn(dirScope...)
	m := tier(2, 3)
	no, nn := 1+nd.Choice("old", m), 1+nd.Choice("new", m)
	on, nw := make([]string, no), make([]string, nn)
	od, ndf := s.o.dirDef("d"), s.n.dirDef("d")
	od.Locations, ndf.Locations = nil, nil
	for i := range on {
		on[i] = loc("oldloc")
		od.Locations = append(od.Locations, ast.DirectiveLocation(on[i]))
	}
	for i := range nw {
		nw[i] = loc("newloc")
		ndf.Locations = append(ndf.Locations, ast.DirectiveLocation(nw[i]))
	}
	distinct(on)
	distinct(nw)
	for _, x := range on {
		s.expect("DIRECTIVE_LOCATION_REMOVED", brk, "@d", !in(nw, x), x)
	}
	for _, x := range nw {
		s.expect("DIRECTIVE_LOCATION_ADDED", non, "@d", !in(on, x), x)
	}
	return s
}

func scDirArgs() *scn {
	s := newScn(dirScope...)
	no, nn := counts(3, 4)
	on, nw := newNames("old", no, 4), newNames("new", nn, 4)
	od, ndf := s.o.dirDef("d"), s.n.dirDef("d")
	for _, x := range on {
		od.Arguments = append(od.Arguments, s.o.arg(x, &ast.Type{NamedType: "A", NonNull: nd.Bool("onn")}))
		s.expect("DIRECTIVE_ARGUMENT_REMOVED", brk, "@d."+x, !in(nw, x), x)
	}
	for i, y := range nw {
		nnull := nd.Bool("nnn")
		t := &ast.Type{NamedType: "A", NonNull: nnull}
		if nd.Choice("list", 2) == 1 {
			t = &ast.Type{Elem: &ast.Type{NamedType: "A", NonNull: nd.Bool("elemnn")}, NonNull: nnull}
		}
		a := s.n.arg(y, t)
		crit := brk
		if i == len(nw)-1 && nd.Choice("default", 2) == 1 {
			a.DefaultValue = intVal("1")
			crit = anySeverity
		}
		ndf.Arguments = append(ndf.Arguments, a)
		s.expect("DIRECTIVE_ARGUMENT_ADDED", crit, "@d."+y, nd.And(nnull, !in(on, y)), y)
		s.expect("DIRECTIVE_ARGUMENT_ADDED", non, "@d."+y, nd.And(!nnull, !in(on, y)), y)
	}
	return s
}

// scDirMix has two directives in both versions that change in flag, location and argument at once, and any order.
func scDirMix() *scn {
	s := newScn(dirScope...)
	names := newNames("dir", 2, 3)
	rev := nd.Choice("reversed", 2) == 1
	for _, x := range names {
		od := s.o.dirDef(x)
		od.IsRepeatable = nd.Bool("orep")
		od.Locations = []ast.DirectiveLocation{ast.DirectiveLocation(loc("oloc"))}
		od.Arguments = ast.ArgumentDefinitionList{s.o.arg(nd.Name("oarg", 2), named("A"))}
	}
	for i := range names {
		j := i
		if rev {
			j = 1 - i
		}
		x := names[j]
		od := s.o.doc.Directives[j]
		nf := s.n.dirDef(x)
		nf.IsRepeatable = nd.Bool("nrep")
		nf.Locations = []ast.DirectiveLocation{ast.DirectiveLocation(loc("nloc"))}
		nn := nd.Bool("nnn")
		na := s.n.arg(nd.Name("narg", 2), &ast.Type{NamedType: "A", NonNull: nn})
		nf.Arguments = ast.ArgumentDefinitionList{na}
		p := "@" + x
		s.expect("DIRECTIVE_REPEATABLE_REMOVED", brk, p, nd.And(od.IsRepeatable, !nf.IsRepeatable), x)
		s.expect("DIRECTIVE_REPEATABLE_ADDED", non, p, nd.And(!od.IsRepeatable, nf.IsRepeatable), x)
		dl := od.Locations[0] != nf.Locations[0]
		s.expect("DIRECTIVE_LOCATION_REMOVED", brk, p, dl, x)
		s.expect("DIRECTIVE_LOCATION_ADDED", non, p, dl, x)
		oa := od.Arguments[0]
		da := oa.Name != na.Name
		s.expect("DIRECTIVE_ARGUMENT_REMOVED", brk, p+"."+oa.Name, da, x, oa.Name)
		s.expect("DIRECTIVE_ARGUMENT_ADDED", brk, p+"."+na.Name, nd.And(da, nn), x, na.Name)
		s.expect("DIRECTIVE_ARGUMENT_ADDED", non, p+"."+na.Name, nd.And(da, !nn), x, na.Name)
	}
	return s
}

// H_C10_defs: Bounds: up to 3 directive definitions per version (thorough 4), names of 1..4 bytes.
func H_C10_defs() { scDirDefs().check() }

// H_C10_locations: Bounds: one directive with 1..2 locations per version (thorough 3) out of 8.
func H_C10_locations() { scLocations().check() }

// H_C10_args: Bounds: one directive with up to 3 arguments per version (thorough 4), names of 1..4 bytes, any nullability, the last new one with or without a default.
func H_C10_args() { scDirArgs().check() }

// H_C10_mix: Bounds: two directives in the same or reversed order, each with a repeatable flag, one location and one argument in both versions.
func H_C10_mix() { scDirMix().check() }

// ---- C11

// appHost applies directive lists to a type or a field of both versions.
func (s *scn) apply(ol, nl ast.DirectiveList) string {
	ext := nd.Choice("ext", 2) == 1
	h := nd.Choice("host", 5)
	k := []ast.DefinitionKind{ast.Object, ast.Interface, ast.Object, ast.Interface, ast.InputObject}[h]
	od, ndf := s.o.def(ext, k, "T"), s.n.def(ext, k, "T")
	of, nf := s.o.field(od, "f", named("R")), s.n.field(ndf, "f", named("R"))
	if h < 2 {
		od.Directives, ndf.Directives = ol, nl
		return "T"
	}
	of.Directives, nf.Directives = ol, nl
	return "T.f"
}

// sameArgs tells whether two applications are identical up to the order of arguments.
func sameArgs(a, b *ast.Directive) bool {
	if len(a.Arguments) != len(b.Arguments) {
		return false
	}
	for _, x := range a.Arguments {
		ok := false
		for _, y := range b.Arguments {
			if x.Name == y.Name && x.Value.Kind == y.Value.Kind && x.Value.Raw == y.Value.Raw {
				ok = true
			}
		}
		if !ok {
			return false
		}
	}
	return true
}

func (s *scn) expectApplied(ol, nl ast.DirectiveList, path string) {
	for _, a := range ol {
		if a.Name == "deprecated" {
			continue
		}
		var same []*ast.Directive
		for _, b := range nl {
			if b.Name == a.Name {
				same = append(same, b)
			}
		}
		times := 0
		for _, b := range ol {
			if b.Name == a.Name {
				times++
			}
		}
		switch {
		case len(same) == 0:
			s.expect("DIRECTIVE_REMOVED", dng, path, true, "@"+a.Name)
		case len(same) == 1 && times == 1:
			b := same[0]
			for _, x := range a.Arguments {
				found := false
				for _, y := range b.Arguments {
					if x.Name == y.Name {
						found = true
						s.expect("DIRECTIVE_ARGUMENT_VALUE_CHANGED", dng, "@"+a.Name+"."+x.Name, !(x.Value.Kind == y.Value.Kind && x.Value.Raw == y.Value.Raw), "@"+a.Name, path)
					}
				}
				s.expect("DIRECTIVE_ARGUMENT_REMOVED", dng, "@"+a.Name+"."+x.Name, !found, "@"+a.Name, path)
			}
			for _, y := range b.Arguments {
				found := false
				for _, x := range a.Arguments {
					if x.Name == y.Name {
						found = true
					}
				}
				s.expect("DIRECTIVE_ARGUMENT_ADDED", non, "", !found, "@"+a.Name, y.Name)
			}
		default:
			found := false
			for _, b := range same {
				if sameArgs(a, b) {
					found = true
				}
			}
			s.expect("DIRECTIVE_CHANGED", dng, path, !found, "@"+a.Name)
		}
	}
	for _, b := range nl {
		if b.Name == "deprecated" {
			continue
		}
		found := false
		for _, a := range ol {
			if a.Name == b.Name {
				found = true
			}
		}
		s.expect("DIRECTIVE_ADDED", non, path, !found, "@"+b.Name)
	}
}

// scAppliedArgs: one directive applied once in both versions.
func scAppliedArgs() *scn {
	s := newScn(dirScope...)
	name := nd.Name("dir", 3)
	no, nn := counts(2, 3)
	on, nw := newNames("old", no, 3), newNames("new", nn, 3)
	a, b := s.o.directive(name), s.n.directive(name)
	val := func(l string, i int) *ast.Value {
		if i == 0 && nd.Choice(l+".kind", 2) == 1 {
			return intVal(nd.StrOf(l+".int", 1, 2, "0123456789"))
		}
		return strVal(ascii(l+".str", 2))
	}
	for i, x := range on {
		a.Arguments = append(a.Arguments, s.o.argument(x, val("ov", i)))
	}
	for i, x := range nw {
		b.Arguments = append(b.Arguments, s.n.argument(x, val("nv", i)))
	}
	ol, nl := ast.DirectiveList{a}, ast.DirectiveList{b}
	switch nd.Choice("deprecated", 3) {
	case 1:
		ol = ast.DirectiveList{s.o.directive("deprecated"), a}
	case 2:
		nl = ast.DirectiveList{s.n.directive("deprecated"), b}
	}
	s.expectApplied(ol, nl, s.apply(ol, nl))
	return s
}

// scAppliedLists: several applications with at most one argument each.
func scAppliedLists() *scn {
	s := newScn(dirScope...)
	no, nn := counts(2, 3)
	mk := func(sd *side, label string, n int) (l ast.DirectiveList) {
		for ; n > 0; n-- {
			d := sd.directive(nd.Name(label, 2))
			if nd.Choice(label+".args", 2) == 1 {
				d.Arguments = ast.ArgumentList{sd.argument(nd.Name(label+".arg", 1), intVal(nd.StrOf(label+".val", 1, 1, "0123456789")))}
			}
			l = append(l, d)
		}
		return
	}
	ol, nl := mk(s.o, "old", no), mk(s.n, "new", nn)
	s.expectApplied(ol, nl, s.apply(ol, nl))
	return s
}

// scRepeated: one directive applied up to 3 times with up to 2 arguments of known names.
func scRepeated() *scn {
	s := newScn(dirScope...)
	m := tier(2, 3)
	mk := func(sd *side, label string) (l ast.DirectiveList) {
		for n := 1 + nd.Choice(label+".n", m); n > 0; n-- {
			d := sd.directive("key")
			for _, x := range [][]string{{}, {"p"}, {"p", "q"}, {"q", "p"}}[nd.Choice(label+".args", 4)] {
				d.Arguments = append(d.Arguments, sd.argument(x, strVal(ascii(label+".val", 1))))
			}
			l = append(l, d)
		}
		return
	}
	ol, nl := mk(s.o, "old"), mk(s.n, "new")
	ext := nd.Choice("ext", 2) == 1
	s.o.def(ext, ast.Object, "T").Directives = ol
	s.n.def(ext, ast.Object, "T").Directives = nl
	s.expectApplied(ol, nl, "T")
	return s
}

// H_C11_args: Bounds: one directive applied once in both versions to an object, interface or one of their fields or an input field (definition or
// extension), up to 2 arguments per version (thorough 3), string or integer values of up to 2 bytes, @deprecated beside it or not.
func H_C11_args() { scAppliedArgs().check() }

// H_C11_lists: Bounds: up to 2 applications per version (thorough 3) of directives with names of 1..2 bytes and at most one argument.
func H_C11_lists() { scAppliedLists().check() }

// H_C11_repeated: Bounds: one directive applied 1..2 times per version (thorough 3) with up to 2 arguments in any order, values of 0..1 bytes.
func H_C11_repeated() { scRepeated().check() }

// ---- C12

var ops = []ast.Operation{ast.Query, ast.Mutation, ast.Subscription}

// rootOps distributes the operations over the blocks (in either order) and tells the type bound to each ("" none).
func (s *side) rootOps(label string, ext bool, blocks int) (types []string) {
	list := make([]*ast.SchemaDefinition, blocks)
	for i := range list {
		list[i] = &ast.SchemaDefinition{Position: s.pos(8)}
	}
	rev := nd.Choice(label+".rev", 2) == 1
	types = make([]string, 3)
	for i := range ops {
		if rev {
			i = 2 - i
		}
		b := nd.Choice(label+".op", blocks+1)
		if b == 0 {
			continue
		}
		types[i] = nd.Name(label+".type", 3)
		list[b-1].OperationTypes = append(list[b-1].OperationTypes, &ast.OperationTypeDefinition{Operation: ops[i], Type: types[i], Position: s.pos(3)})
	}
	for _, x := range list {
		if len(x.OperationTypes) == 0 {
			if !ext {
				continue // a schema block has at least one operation
			}
			x.Directives = ast.DirectiveList{s.directive("x")}
		}
		if ext {
			s.doc.SchemaExtension = append(s.doc.SchemaExtension, x)
		} else {
			s.doc.Schema = append(s.doc.Schema, x)
		}
	}
	return
}

var opTypes = []string{"SCHEMA_QUERY_TYPE_CHANGED", "SCHEMA_MUTATION_TYPE_CHANGED", "SCHEMA_SUBSCRIPTION_TYPE_CHANGED"}

func (s *scn) expectOps(a, b []string) {
	for i, t := range opTypes {
		s.expect(t, non, "", a[i] == "" && b[i] != "")
		s.expect(t, brk, "", a[i] != "" && a[i] != b[i])
	}
}

func scOps(ext bool, blocks int) *scn {
	s := newScn(opTypes...)
	s.expectOps(s.o.rootOps("old", ext, blocks), s.n.rootOps("new", ext, blocks))
	return s
}

func scOpsBoth() *scn {
	s := newScn(opTypes...)
	mk := func(sd *side, l string, ext bool) []string {
		r := make([]string, 3)
		i := nd.Choice(l, 4)
		if i == 3 {
			return r
		}
		r[i] = nd.Name(l+".type", 3)
		x := &ast.SchemaDefinition{Position: sd.pos(8)}
		x.OperationTypes = ast.OperationTypeDefinitionList{{Operation: ops[i], Type: r[i], Position: sd.pos(3)}}
		if ext {
			sd.doc.SchemaExtension = append(sd.doc.SchemaExtension, x)
		} else {
			sd.doc.Schema = append(sd.doc.Schema, x)
		}
		return r
	}
	s.expectOps(mk(s.o, "od", false), mk(s.n, "nd", false))
	s.expectOps(mk(s.o, "oe", true), mk(s.n, "ne", true))
	return s
}

// H_C12_block: Bounds: no or one schema block per version, any operations in canonical or reversed order, type names of 1..3 bytes.
func H_C12_block() { scOps(false, 1).check() }

// H_C12_extensions: Bounds: two schema extension blocks per version, any distribution of operations over them, type names of 1..3 bytes.
func H_C12_extensions() { scOps(true, 2).check() }

// H_C12_both: Bounds: at most one operation in the schema block and at most one in one schema extension, per version.
func H_C12_both() { scOpsBoth().check() }
