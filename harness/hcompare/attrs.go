package hcompare

import (
	"github.com/vektah/gqlparser/v2/ast"

	"github.com/CrowdStrike/gql/zzverif/nd"
)

// ty is a type reference with the parts the reference looks at (non-null markers from the outside in).
type ty struct {
	t    *ast.Type
	nns  []bool
	name string
}

func newTy(label string, depth, max int) ty {
	r := ty{name: nd.Name(label+".t", max)}
	cur := &ast.Type{NamedType: r.name}
	for i := 0; i <= depth; i++ {
		nn := nd.Bool(label + ".nn")
		cur.NonNull = nn
		r.nns = append([]bool{nn}, r.nns...)
		r.t = cur
		cur = &ast.Type{Elem: cur}
	}
	return r
}

func anyTy(label string, deep, max int) ty {
	return newTy(label, nd.Choice(label+".depth", deep+1), max)
}

// relation tells whether the types are the same, whether b only adds non-null markers, and whether it only removes some.
func relation(a, b ty) (same, adds, removes bool) {
	if len(a.nns) != len(b.nns) {
		return false, false, false
	}
	same = a.name == b.name
	adds, removes = same, same
	for i := range a.nns {
		same = nd.And(same, a.nns[i] == b.nns[i])
		adds = nd.And(adds, nd.Or(!a.nns[i], b.nns[i]))
		removes = nd.And(removes, nd.Or(a.nns[i], !b.nns[i]))
	}
	return
}

var typeScope = []string{"FIELD_TYPE_CHANGED", "FIELD_ARGUMENT_TYPE_CHANGED", "INPUT_FIELD_TYPE_CHANGED", "DIRECTIVE_ARGUMENT_TYPE_CHANGED"}

func (s *scn) expectOut(typ, path string, a, b ty) {
	same, adds, _ := relation(a, b)
	s.expect(typ, non, path, nd.And(!same, adds))
	s.expect(typ, brk, path, !adds)
}

func (s *scn) expectIn(typ, path string, a, b ty) {
	same, _, removes := relation(a, b)
	s.expect(typ, non, path, nd.And(!same, removes))
	s.expect(typ, brk, path, !removes)
}

// ---- C02

func scFieldType() *scn {
	s := newScn(typeScope...)
	ext, k := host(ast.Object, ast.Interface)
	t, f := nd.Name("type", 3), nd.Name("field", 3)
	d := tier(3, 4)
	a, b := anyTy("old", d, 4), anyTy("new", d, 4)
	s.o.field(s.o.def(ext, k, t), f, a.t)
	s.n.field(s.n.def(ext, k, t), f, b.t)
	s.expectOut("FIELD_TYPE_CHANGED", t+"."+f, a, b)
	return s
}

func scFieldTypes() *scn {
	s := newScn(typeScope...)
	ext, k := host(ast.Object, ast.Interface)
	n := tier(2, 3)
	names := newNames("field", n, 3)
	od, ndf := s.o.def(ext, k, "T"), s.n.def(ext, k, "T")
	rev := nd.Choice("reversed", 2) == 1
	var bs []ty
	for i, x := range names {
		a, b := newTy("old", 0, 3), anyTy("new", 1, 3)
		if i > 0 {
			a, b = anyTy("old", 1, 3), newTy("new", 0, 3)
		}
		s.o.field(od, x, a.t)
		bs = append(bs, b)
		s.expectOut("FIELD_TYPE_CHANGED", "T."+x, a, b)
	}
	for i := range names {
		if rev {
			i = len(names) - 1 - i
		}
		s.n.field(ndf, names[i], bs[i].t)
	}
	return s
}

// H_C02_type: Bounds: one field of an object or interface (definition or extension), old and new type of up to 3 list levels
// (thorough 4) with any non-null markers and names of 1..4 bytes.
func H_C02_type() { scFieldType().check() }

// H_C02_many: Bounds: 2 fields (thorough 3) in the same or reversed order, types of at most one list level, names of 1..3 bytes.
func H_C02_many() { scFieldTypes().check() }

// ---- C03

func scArgType() *scn {
	s := newScn(typeScope...)
	ext, k := host(ast.Object, ast.Interface)
	t, f, g := nd.Name("type", 2), nd.Name("field", 2), nd.Name("arg", 2)
	d := tier(3, 4)
	a, b := anyTy("old", d, 4), anyTy("new", d, 4)
	of, nf := s.o.field(s.o.def(ext, k, t), f, named("R")), s.n.field(s.n.def(ext, k, t), f, named("R"))
	of.Arguments = ast.ArgumentDefinitionList{s.o.arg(g, a.t)}
	nf.Arguments = ast.ArgumentDefinitionList{s.n.arg(g, b.t)}
	s.expectIn("FIELD_ARGUMENT_TYPE_CHANGED", t+"."+f+"."+g, a, b)
	return s
}

func scInputType() *scn {
	s := newScn(typeScope...)
	ext := nd.Choice("ext", 2) == 1
	t, f := nd.Name("type", 3), nd.Name("field", 3)
	d := tier(3, 4)
	a, b := anyTy("old", d, 4), anyTy("new", d, 4)
	s.o.field(s.o.def(ext, ast.InputObject, t), f, a.t)
	s.n.field(s.n.def(ext, ast.InputObject, t), f, b.t)
	s.expectIn("INPUT_FIELD_TYPE_CHANGED", t+"."+f, a, b)
	return s
}

func scDirArgType() *scn {
	s := newScn(typeScope...)
	t, g := nd.Name("dir", 3), nd.Name("arg", 3)
	d := tier(3, 4)
	a, b := anyTy("old", d, 4), anyTy("new", d, 4)
	s.o.dirDef(t).Arguments = ast.ArgumentDefinitionList{s.o.arg(g, a.t)}
	s.n.dirDef(t).Arguments = ast.ArgumentDefinitionList{s.n.arg(g, b.t)}
	s.expectIn("DIRECTIVE_ARGUMENT_TYPE_CHANGED", "@"+t+"."+g, a, b)
	return s
}

// scInTypes has several arguments and input fields at once.
func scInTypes() *scn {
	s := newScn(typeScope...)
	ext := nd.Choice("ext", 2) == 1
	n := tier(2, 3)
	what := nd.Choice("what", 3)
	names := newNames("name", n, 3)
	rev := nd.Choice("reversed", 2) == 1
	var as, bs []ty
	for i := range names {
		a, b := newTy("old", 0, 3), anyTy("new", 1, 3)
		if i > 0 {
			a, b = anyTy("old", 1, 3), newTy("new", 0, 3)
		}
		as, bs = append(as, a), append(bs, b)
	}
	at := func(i int) int {
		if rev {
			return len(names) - 1 - i
		}
		return i
	}
	list := func(sd *side, ts []ty, ord func(int) int) (l ast.ArgumentDefinitionList) {
		for i := range names {
			l = append(l, sd.arg(names[ord(i)], ts[ord(i)].t))
		}
		return
	}
	id := func(i int) int { return i }
	switch what {
	case 0:
		s.o.field(s.o.def(ext, ast.Object, "T"), "f", named("R")).Arguments = list(s.o, as, id)
		s.n.field(s.n.def(ext, ast.Object, "T"), "f", named("R")).Arguments = list(s.n, bs, at)
	case 1:
		s.o.dirDef("d").Arguments = list(s.o, as, id)
		s.n.dirDef("d").Arguments = list(s.n, bs, at)
	case 2:
		od, ndf := s.o.def(ext, ast.InputObject, "T"), s.n.def(ext, ast.InputObject, "T")
		for i := range names {
			s.o.field(od, names[i], as[i].t)
			s.n.field(ndf, names[at(i)], bs[at(i)].t)
		}
	}
	for i, x := range names {
		typ := []string{"FIELD_ARGUMENT_TYPE_CHANGED", "DIRECTIVE_ARGUMENT_TYPE_CHANGED", "INPUT_FIELD_TYPE_CHANGED"}[what]
		s.expectIn(typ, []string{"T.f.", "@d.", "T."}[what]+x, as[i], bs[i])
	}
	return s
}

// H_C03_arg: Bounds: one argument of an object's or interface's field, types of up to 3 list levels (thorough 4), any non-null markers, names of 1..4 bytes.
func H_C03_arg() { scArgType().check() }

// H_C03_input: Bounds: one input field (definition or extension), types of up to 3 list levels (thorough 4), any non-null markers.
func H_C03_input() { scInputType().check() }

// H_C03_directive: Bounds: one argument of a directive definition, types of up to 3 list levels (thorough 4), any non-null markers.
func H_C03_directive() { scDirArgType().check() }

// H_C03_many: Bounds: 2 (thorough 3) arguments, input fields or directive arguments, same or reversed order, types of at most one list level.
func H_C03_many() { scInTypes().check() }

// ---- C13

// dep is a list of applied directives with what the reference says about @deprecated in it.
type dep struct {
	on, hasReason bool
	reason        string
	list          ast.DirectiveList
}

func (s *side) newDep(label string) dep {
	var d dep
	switch nd.Choice(label, 5) {
	case 1:
		d.on = true
		d.list = ast.DirectiveList{s.directive("deprecated")}
	case 2:
		d.on, d.hasReason = true, true
		d.reason = ascii(label+".reason", 3)
		d.list = ast.DirectiveList{s.directive("deprecated", s.argument("reason", strVal(d.reason)))}
	case 3:
		d.on, d.hasReason = true, true
		d.reason = ascii(label+".reason", 2)
		d.list = ast.DirectiveList{s.directive("x", s.argument("reason", strVal(ascii(label+".other", 2)))),
			s.directive("deprecated", s.argument("reason", strVal(d.reason)))}
	case 4:
		d.list = ast.DirectiveList{s.directive("x", s.argument("reason", strVal("a")))}
	}
	return d
}

var depScope = []string{
	"FIELD_DEPRECATION_ADDED", "FIELD_DEPRECATION_REMOVED", "FIELD_DEPRECATION_REASON_CHANGED",
	"INPUT_FIELD_DEPRECATION_ADDED", "INPUT_FIELD_DEPRECATION_REMOVED", "INPUT_FIELD_DEPRECATION_REASON_CHANGED",
	"ENUM_VALUE_DEPRECATION_ADDED", "ENUM_VALUE_DEPRECATION_REMOVED", "ENUM_VALUE_DEPRECATION_REASON_CHANGED",
}

func (s *scn) expectDep(prefix, path string, a, b dep, names ...string) {
	s.expect(prefix+"_DEPRECATION_ADDED", dng, path, !a.on && b.on, names...)
	s.expect(prefix+"_DEPRECATION_REMOVED", dng, path, a.on && !b.on, names...)
	diff := false
	if a.hasReason && b.hasReason {
		diff = a.reason != b.reason
	}
	s.expect(prefix+"_DEPRECATION_REASON_CHANGED", non, path, diff, names...)
}

func scDep(n int) *scn {
	s := newScn(depScope...)
	ext, k := host(ast.Object, ast.Interface, ast.InputObject, ast.Enum)
	names := newNames("name", n, 3)
	od, ndf := s.o.def(ext, k, "T"), s.n.def(ext, k, "T")
	rev := n > 1 && nd.Choice("reversed", 2) == 1
	as, bs := make([]dep, n), make([]dep, n)
	add := func(sd *side, d *ast.Definition, name string, l ast.DirectiveList) {
		if k == ast.Enum {
			sd.value(d, name).Directives = l
		} else {
			sd.field(d, name, named("A")).Directives = l
		}
	}
	for i, x := range names {
		as[i], bs[i] = s.o.newDep("olddep"), s.n.newDep("newdep")
		add(s.o, od, x, as[i].list)
	}
	prefix := map[ast.DefinitionKind]string{ast.Object: "FIELD", ast.Interface: "FIELD", ast.InputObject: "INPUT_FIELD", ast.Enum: "ENUM_VALUE"}[k]
	for i := range names {
		if rev {
			i = n - 1 - i
		}
		add(s.n, ndf, names[i], bs[i].list)
		s.expectDep(prefix, "T."+names[i], as[i], bs[i], names[i])
	}
	return s
}

// H_C13_one: Bounds: one field or enum value of an object, interface, input object or enum (definition or extension), not deprecated, deprecated
// with or without a reason of 0..3 ASCII bytes, other directives before it.
func H_C13_one() { scDep(1).check() }

// H_C13_two: Bounds: as H_C13_one with two members in the same or reversed order.
func H_C13_two() { scDep(2).check() }

// ---- C14

// dval is a default value with what identifies it: its lexical class and text.
type dval struct {
	class int
	text  string
	v     *ast.Value
}

// newVal makes no value, an int, an enum name, a string, a block string, null, a list or an object.
func newVal(label string, none bool) dval {
	n := 6
	if none {
		n = 7
	}
	switch nd.Choice(label, n) {
	case 0:
		x := nd.StrOf(label+".int", 1, 2, "0123456789")
		return dval{1, x, intVal(x)}
	case 1:
		x := ascii(label+".str", 2)
		k := ast.StringValue
		if nd.Choice(label+".block", 2) == 1 {
			k = ast.BlockValue
		}
		return dval{2, x, &ast.Value{Kind: k, Raw: x}}
	case 2:
		x := nd.Name(label+".enum", 2)
		return dval{3, x, enumVal(x)}
	case 3:
		return dval{3, "null", &ast.Value{Kind: ast.NullValue, Raw: "null"}}
	case 4:
		v := &ast.Value{Kind: ast.ListValue}
		text := ""
		for i := nd.Choice(label+".len", 3); i > 0; i-- {
			x := nd.StrOf(label+".elem", 1, 1, "0123456789")
			text += "," + x
			v.Children = append(v.Children, &ast.ChildValue{Value: intVal(x)})
		}
		return dval{4, text, v}
	case 5:
		v := &ast.Value{Kind: ast.ObjectValue}
		f, x := nd.Name(label+".of", 1), nd.StrOf(label+".ov", 1, 1, "0123456789")
		v.Children = append(v.Children, &ast.ChildValue{Name: f, Value: intVal(x)})
		return dval{5, f + ":" + x, v}
	}
	return dval{0, "", nil}
}

func (a dval) same(b dval) bool {
	if a.class != b.class {
		return false
	}
	return a.text == b.text
}

var defScope = []string{"FIELD_ARGUMENT_DEFAULT_CHANGED", "INPUT_FIELD_DEFAULT_VALUE_CHANGED", "DIRECTIVE_ARGUMENT_DEFAULT_VALUE_CHANGED"}

func scDefaults() *scn {
	s := newScn(defScope...)
	what := nd.Choice("what", 3)
	ext := what != 1 && nd.Choice("ext", 2) == 1
	name := nd.Name("name", 3)
	a, b := newVal("old", true), newVal("new", true)
	ot, nt := &ast.Type{NamedType: "A", NonNull: nd.Bool("onn")}, &ast.Type{NamedType: "A", NonNull: nd.Bool("nnn")}
	switch what {
	case 0:
		k := []ast.DefinitionKind{ast.Object, ast.Interface}[nd.Choice("kind", 2)]
		oa, na := s.o.arg(name, ot), s.n.arg(name, nt)
		oa.DefaultValue, na.DefaultValue = a.v, b.v
		s.o.field(s.o.def(ext, k, "T"), "f", named("R")).Arguments = ast.ArgumentDefinitionList{oa}
		s.n.field(s.n.def(ext, k, "T"), "f", named("R")).Arguments = ast.ArgumentDefinitionList{na}
		s.expect("FIELD_ARGUMENT_DEFAULT_CHANGED", dng, "T.f."+name, !a.same(b), name)
	case 1:
		oa, na := s.o.arg(name, ot), s.n.arg(name, nt)
		oa.DefaultValue, na.DefaultValue = a.v, b.v
		s.o.dirDef("d").Arguments = ast.ArgumentDefinitionList{oa}
		s.n.dirDef("d").Arguments = ast.ArgumentDefinitionList{na}
		s.expect("DIRECTIVE_ARGUMENT_DEFAULT_VALUE_CHANGED", dng, "@d."+name, !a.same(b), name)
	case 2:
		s.o.field(s.o.def(ext, ast.InputObject, "T"), name, ot).DefaultValue = a.v
		s.n.field(s.n.def(ext, ast.InputObject, "T"), name, nt).DefaultValue = b.v
		s.expect("INPUT_FIELD_DEFAULT_VALUE_CHANGED", dng, "T."+name, !a.same(b), name)
	}
	return s
}

var descScope = []string{"FIELD_ARGUMENT_DESCRIPTION_CHANGED", "DIRECTIVE_DESCRIPTION_CHANGED", "DIRECTIVE_ARGUMENT_DESCRIPTION_CHANGED",
	"ENUM_VALUE_DESCRIPTION_CHANGED", "FIELD_DESCRIPTION_CHANGED", "INPUT_FIELD_DESCRIPTION_CHANGED", "TYPE_DESCRIPTION_CHANGED"}

// scDescs has every kind of description in both versions, on several members.
func scDescs() *scn {
	s := newScn(descScope...)
	pair := func(typ, path string) (string, string) {
		m := tier(3, 4)
		a, b := nd.Str("old", m), nd.Str("new", m)
		s.expect(typ, non, path, a != b)
		return a, b
	}
	switch nd.Choice("what", 4) {
	case 0: // types with fields and arguments
		ext, k := host(ast.Object, ast.Interface)
		od, ndf := s.o.def(ext, k, "T"), s.n.def(ext, k, "T")
		if !ext {
			od.Description, ndf.Description = pair("TYPE_DESCRIPTION_CHANGED", "T")
		}
		for _, x := range []string{"f", "g"} {
			of, nf := s.o.field(od, x, named("R")), s.n.field(ndf, x, named("R"))
			of.Description, nf.Description = pair("FIELD_DESCRIPTION_CHANGED", "T."+x)
			for _, y := range []string{"p", "q"} {
				oa, na := s.o.arg(y, named("A")), s.n.arg(y, named("A"))
				oa.Description, na.Description = pair("FIELD_ARGUMENT_DESCRIPTION_CHANGED", "T."+x+"."+y)
				of.Arguments, nf.Arguments = append(of.Arguments, oa), append(nf.Arguments, na)
				if x == "g" {
					break
				}
			}
		}
	case 1: // input fields and enum values
		ext, k := host(ast.InputObject, ast.Enum)
		od, ndf := s.o.def(ext, k, "T"), s.n.def(ext, k, "T")
		if !ext {
			od.Description, ndf.Description = pair("TYPE_DESCRIPTION_CHANGED", "T")
		}
		for _, x := range []string{"f", "g", "h"} {
			if k == ast.Enum {
				ov, nv := s.o.value(od, x), s.n.value(ndf, x)
				ov.Description, nv.Description = pair("ENUM_VALUE_DESCRIPTION_CHANGED", "T."+x)
			} else {
				of, nf := s.o.field(od, x, named("R")), s.n.field(ndf, x, named("R"))
				of.Description, nf.Description = pair("INPUT_FIELD_DESCRIPTION_CHANGED", "T."+x)
			}
		}
	case 2: // scalars and unions
		for _, x := range []string{"T", "U"} {
			k := ast.DefinitionKind([]string{"SCALAR", "UNION"}[nd.Choice("kind", 2)])
			od, ndf := s.o.def(false, k, x), s.n.def(false, k, x)
			od.Description, ndf.Description = pair("TYPE_DESCRIPTION_CHANGED", x)
		}
	case 3: // directives
		for _, x := range []string{"d", "e"} {
			od, ndf := s.o.dirDef(x), s.n.dirDef(x)
			od.Description, ndf.Description = pair("DIRECTIVE_DESCRIPTION_CHANGED", "@"+x)
			for _, y := range []string{"p", "q"} {
				oa, na := s.o.arg(y, named("A")), s.n.arg(y, named("A"))
				oa.Description, na.Description = pair("DIRECTIVE_ARGUMENT_DESCRIPTION_CHANGED", "@"+x+"."+y)
				od.Arguments, ndf.Arguments = append(od.Arguments, oa), append(ndf.Arguments, na)
				if x == "e" {
					break
				}
			}
		}
	}
	return s
}

// H_C14_defaults: Bounds: one field argument, input field or directive argument, default absent, an integer, an enum name, a (block) string of up to 2
// ASCII bytes, null, a list of up to 2 integers or a one-field object, nullable or non-null type.
func H_C14_defaults() { scDefaults().check() }

// H_C14_descriptions: Bounds: all kinds of described elements, up to 6 descriptions of 0..3 arbitrary bytes (thorough 0..4) at once.
func H_C14_descriptions() { scDescs().check() }
