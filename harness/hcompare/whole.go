package hcompare

import (
	"github.com/vektah/gqlparser/v2/ast"

	"github.com/CrowdStrike/gql/pkg/compare"
	"github.com/CrowdStrike/gql/zzverif/nd"
)

// ---- C15: what is reported for a document is what is reported for its parts.

// part selects definitions.
func part(defs ast.DefinitionList, name string) (l ast.DefinitionList) {
	for _, d := range defs {
		if d.Name == name {
			l = append(l, d)
		}
	}
	return
}

func allNames(a, b ast.DefinitionList) (l []string) {
	for _, x := range append(append(ast.DefinitionList{}, a...), b...) {
		seen := false
		for _, y := range l {
			if x.Name == y {
				seen = true
			}
		}
		if !seen {
			l = append(l, x.Name)
		}
	}
	return
}

// apart compares every part of the two documents on its own.
func (s *scn) apart() (all []*compare.Change) {
	o, n := s.o.doc, s.n.doc
	for _, x := range allNames(o.Definitions, n.Definitions) {
		all = append(all, compare.FindChangesInSchemas(&ast.SchemaDocument{Definitions: part(o.Definitions, x)},
			&ast.SchemaDocument{Definitions: part(n.Definitions, x)})...)
	}
	for _, x := range allNames(o.Extensions, n.Extensions) {
		all = append(all, compare.FindChangesInSchemas(&ast.SchemaDocument{Extensions: part(o.Extensions, x)},
			&ast.SchemaDocument{Extensions: part(n.Extensions, x)})...)
	}
	all = append(all, compare.FindChangesInSchemas(&ast.SchemaDocument{Directives: o.Directives}, &ast.SchemaDocument{Directives: n.Directives})...)
	all = append(all, compare.FindChangesInSchemas(&ast.SchemaDocument{Schema: o.Schema}, &ast.SchemaDocument{Schema: n.Schema})...)
	all = append(all, compare.FindChangesInSchemas(&ast.SchemaDocument{SchemaExtension: o.SchemaExtension},
		&ast.SchemaDocument{SchemaExtension: n.SchemaExtension})...)
	return
}

// count is how often the change occurs in the list.
func count(c *compare.Change, l []*compare.Change) int {
	n := 0
	for _, x := range l {
		if x.GetChangeType() != c.GetChangeType() || x.GetChangeCriticalityLevel() != c.GetChangeCriticalityLevel() || x.GetPosition() != c.GetPosition() {
			continue
		}
		n += nd.If(nd.And(x.GetMessage() == c.GetMessage(), x.GetPath() == c.GetPath()), 1, 0)
	}
	return n
}

// sameChanges states that the two lists hold the same changes, each as often.
func sameChanges(a, b []*compare.Change, msg string) {
	nd.Assert(len(a) == len(b), msg)
	for _, c := range a {
		nd.Assert(count(c, a) == count(c, b), msg)
	}
}

func (s *scn) separable() {
	parts := s.apart()
	all := compare.FindChangesInSchemas(s.o.doc, s.n.doc)
	nd.Obs("changes", len(all))
	if len(all) > 0 {
		nd.Reach("changes")
	} else {
		nd.Reach("none")
	}
	sameChanges(all, parts, "the changes are those of the parts")
}

// fill gives a definition a member.
func (s *side) fill(d *ast.Definition, member string, variant bool) {
	switch d.Kind {
	case ast.Enum:
		v := s.value(d, member)
		if variant {
			v.Description = "x"
		}
	case ast.Union:
		d.Types = append(d.Types, member)
	case ast.Scalar:
		if variant {
			d.Description = "x"
		}
	default:
		f := s.field(d, member, named("A"))
		if variant {
			f.Type.NonNull = true
			f.Directives = ast.DirectiveList{s.directive("deprecated")}
		}
	}
}

var allKinds = []ast.DefinitionKind{ast.Object, ast.InputObject, ast.Enum, ast.Interface, ast.Union, ast.Scalar}

// scRoles has definitions and extensions in both versions, with names in any relation.
func scRoles() *scn {
	s := newScn()
	k := allKinds[nd.Choice("kind", len(allKinds))]
	k2 := k
	if nd.Choice("otherkind", 2) == 1 {
		k2 = ast.Object
	}
	variant := nd.Choice("variant", 2) == 1
	fixed := nd.Name("name", 2)
	for _, x := range []struct {
		label string
		sd    *side
		ext   bool
		v     bool
		k     ast.DefinitionKind
	}{{"od", s.o, false, false, k}, {"nd", s.n, false, variant, k2}, {"oe", s.o, true, false, k}, {"ne", s.n, true, variant, k2}} {
		name := fixed
		if x.label != "od" {
			switch nd.Choice(x.label, 3) {
			case 0:
				continue
			case 1:
				name = nd.Name(x.label+".name", 2)
			}
		}
		x.sd.fill(x.sd.def(x.ext, x.k, name), nd.Name("member", 1), x.v)
	}
	return s
}

// scSeveral has two definitions or extensions per version, with names in any relation but different within a list.
func scSeveral() *scn {
	s := newScn()
	ext := nd.Choice("ext", 2) == 1
	k := allKinds[nd.Choice("kind", len(allKinds))]
	k2 := allKinds[nd.Choice("otherkind", 3)]
	on, nw := newNames("old", 2, 2), newNames("new", 2, 2)
	m := newNames("member", 2, 1)
	for i := range on {
		s.o.fill(s.o.def(ext, []ast.DefinitionKind{k, k2}[i], on[i]), m[0], false)
		s.n.fill(s.n.def(ext, []ast.DefinitionKind{k, k2}[i], nw[i]), m[i], i == 1)
	}
	return s
}

// scBlocks has two extension blocks per version, which may extend the same type.
func scBlocks() *scn {
	s := newScn()
	k := allKinds[nd.Choice("kind", len(allKinds))]
	m := newNames("member", 3, 2)
	for _, sd := range []*side{s.o, s.n} {
		for i := 0; i < 2; i++ {
			d := sd.def(true, k, nd.Name("name", 1))
			sd.fill(d, m[i+nd.Choice("member", 2-i)], sd == s.n)
		}
		if nd.Choice("def", 2) == 1 {
			sd.fill(sd.def(false, k, nd.Name("name", 1)), m[2], false)
		}
	}
	return s
}

// scKitchen has a type, a type extension, a directive definition, and root operations, any of which may change.
func scKitchen() *scn {
	s := newScn()
	for _, sd := range []*side{s.o, s.n} {
		x := func(l string) string { return nd.Name(l, 1) }
		if nd.Choice("schema", 2) == 1 {
			sd.doc.Schema = append(sd.doc.Schema, &ast.SchemaDefinition{Position: sd.pos(8),
				OperationTypes: ast.OperationTypeDefinitionList{{Operation: ast.Query, Type: x("query"), Position: sd.pos(3)}}})
		}
		if nd.Choice("schemaext", 2) == 1 {
			sd.doc.SchemaExtension = append(sd.doc.SchemaExtension, &ast.SchemaDefinition{Position: sd.pos(8),
				OperationTypes: ast.OperationTypeDefinitionList{{Operation: ast.Mutation, Type: x("mutation"), Position: sd.pos(3)}}})
		}
		d := sd.dirDef(x("dirdef"))
		d.IsRepeatable = nd.Bool("repeatable")
		d.Arguments = ast.ArgumentDefinitionList{sd.arg("a", named(x("argtype")))}
		t := sd.def(false, ast.Object, "T")
		t.Directives = ast.DirectiveList{sd.directive(x("dir"))}
		sd.field(t, x("field"), named("A"))
		sd.fill(sd.def(true, ast.Enum, x("ext")), "m", false)
	}
	return s
}

// H_C15_roles: Bounds: up to one definition and one extension per version, kinds in 11 combinations, names of 1..2 bytes in any relation, one member each.
func H_C15_roles() { scRoles().separable() }

// H_C15_several: Bounds: two definitions or two extended types per version, kinds in 18 combinations, names of 1..2 bytes in any relation.
func H_C15_several() { scSeveral().separable() }

// H_C15_blocks: Bounds: two extension blocks per version, of one kind, extending the same or different types, and up to one definition per version.
func H_C15_blocks() { scBlocks().separable() }

// H_C15_kitchen: Bounds: one type, extension, directive definition and up to two schema blocks per version, names of one byte, all changing at will.
func H_C15_kitchen() { scKitchen().separable() }
