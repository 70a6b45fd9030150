package hcompare

import (
	"strings"

	"github.com/vektah/gqlparser/v2/ast"

	"github.com/CrowdStrike/gql/pkg/compare"
	"github.com/CrowdStrike/gql/zzverif/gen"
	"github.com/CrowdStrike/gql/zzverif/nd"
)

// ---- C24: unless a change is Breaking, everything a client could rely on is still there.

// merged are the types of a list: all that their blocks declare.
func merged(defs ast.DefinitionList, blocks bool) (l ast.DefinitionList) {
	for _, x := range defs {
		var t *ast.Definition
		for _, y := range l {
			if y.Name == x.Name {
				t = y
			}
		}
		if t == nil {
			t = &ast.Definition{Name: x.Name, Kind: x.Kind}
			l = append(l, t)
		} else if !blocks || t.Kind != x.Kind {
			nd.Assume(false) // declared twice, or an extension of another kind
		}
		t.Fields = append(t.Fields, x.Fields...)
		t.EnumValues = append(t.EnumValues, x.EnumValues...)
		t.Types = append(t.Types, x.Types...)
		t.Interfaces = append(t.Interfaces, x.Interfaces...)
		if blocks {
			once(len(t.Fields), func(i int) string { return t.Fields[i].Name })
			once(len(t.EnumValues), func(i int) string { return t.EnumValues[i].Name })
			once(len(t.Types), strs(t.Types))
			once(len(t.Interfaces), strs(t.Interfaces))
		}
	}
	return
}

// once leaves out lists in which a name is declared twice.
func once(n int, name func(i int) string) {
	for i := 0; i < n; i++ {
		if find(i, name, name(i)) >= 0 {
			nd.Assume(false)
		}
	}
}

// find is the place of the name in the list.
func find(n int, name func(i int) string, x string) int {
	for i := 0; i < n; i++ {
		if name(i) == x {
			return i
		}
	}
	return -1
}

func strs(l []string) func(i int) string { return func(i int) string { return l[i] } }

// within tells that the names of a are among those of b.
func within(a, b []string) bool {
	for _, x := range a {
		if find(len(b), strs(b), x) < 0 {
			return false
		}
	}
	return true
}

// narrows tells that every value of type b is one of type a.
func narrows(a, b *ast.Type) bool {
	if a.NonNull && !b.NonNull || (a.Elem == nil) != (b.Elem == nil) {
		return false
	}
	if a.Elem != nil {
		return narrows(a.Elem, b.Elem)
	}
	return a.NamedType == b.NamedType
}

// inputItem is an argument or an input field.
type inputItem struct {
	name string
	typ  *ast.Type
	must bool
}

func argItems(l ast.ArgumentDefinitionList) (r []inputItem) {
	for _, a := range l {
		r = append(r, inputItem{a.Name, a.Type, a.Type.NonNull && a.DefaultValue == nil})
	}
	return
}

func fieldItems(l ast.FieldList) (r []inputItem) {
	for _, a := range l {
		r = append(r, inputItem{a.Name, a.Type, a.Type.NonNull && a.DefaultValue == nil})
	}
	return
}

// accepts tells that what could be passed to a can be passed to b. A default that is lost is not looked at.
func accepts(a, b []inputItem) bool {
	an := func(i int) string { return a[i].name }
	bn := func(i int) string { return b[i].name }
	for _, x := range a {
		i := find(len(b), bn, x.name)
		if i < 0 || !narrows(b[i].typ, x.typ) {
			return false
		}
	}
	for _, x := range b {
		if x.must && find(len(a), an, x.name) < 0 {
			return false
		}
	}
	return true
}

// usable tells that what a client of a uses is there in b.
func usable(a, b *ast.Definition) bool {
	switch a.Kind {
	case ast.InputObject:
		return accepts(fieldItems(a.Fields), fieldItems(b.Fields))
	case ast.Enum:
		name := func(l ast.EnumValueList) (r []string) {
			for _, v := range l {
				r = append(r, v.Name)
			}
			return
		}
		return within(name(a.EnumValues), name(b.EnumValues))
	case ast.Union:
		return within(a.Types, b.Types)
	case ast.Object:
		if !within(a.Interfaces, b.Interfaces) {
			return false
		}
	}
	for _, f := range a.Fields {
		i := find(len(b.Fields), func(i int) string { return b.Fields[i].Name }, f.Name)
		if i < 0 {
			return false
		}
		g := b.Fields[i]
		if !narrows(f.Type, g.Type) || !accepts(argItems(f.Arguments), argItems(g.Arguments)) {
			return false
		}
	}
	return true
}

// opsOf are the root operations.
func opsOf(d *ast.SchemaDocument) (names, types []string) {
	for _, l := range []ast.SchemaDefinitionList{d.Schema, d.SchemaExtension} {
		for _, s := range l {
			for _, o := range s.OperationTypes {
				names = append(names, string(o.Operation))
				types = append(types, o.Type)
			}
		}
	}
	return
}

// keeps tells that everything in o is usable in n in the same way.
func keeps(o, n *ast.SchemaDocument) bool {
	for k, l := range [][2]ast.DefinitionList{{o.Definitions, n.Definitions}, {o.Extensions, n.Extensions}} {
		nl := merged(l[1], k == 1)
		for _, a := range merged(l[0], k == 1) {
			i := find(len(nl), func(i int) string { return nl[i].Name }, a.Name)
			if i < 0 || nl[i].Kind != a.Kind || !usable(a, nl[i]) {
				return false
			}
		}
	}
	once(len(o.Directives), func(i int) string { return o.Directives[i].Name })
	once(len(n.Directives), func(i int) string { return n.Directives[i].Name })
	for _, a := range o.Directives {
		i := find(len(n.Directives), func(i int) string { return n.Directives[i].Name }, a.Name)
		if i < 0 {
			return false
		}
		b := n.Directives[i]
		if a.IsRepeatable && !b.IsRepeatable || !accepts(argItems(a.Arguments), argItems(b.Arguments)) {
			return false
		}
		loc := func(l []ast.DirectiveLocation) (r []string) {
			for _, x := range l {
				r = append(r, string(x))
			}
			return
		}
		if !within(loc(a.Locations), loc(b.Locations)) {
			return false
		}
	}
	on, ot := opsOf(o)
	nn, nt := opsOf(n)
	once(len(on), strs(on))
	once(len(nn), strs(nn))
	for i, x := range on {
		j := find(len(nn), strs(nn), x)
		if j < 0 || nt[j] != ot[i] {
			return false
		}
	}
	return true
}

// sound states that what is lost is reported as Breaking.
func (s *scn) sound() {
	if keeps(s.o.doc, s.n.doc) {
		nd.Reach("kept")
		return
	}
	b := breaks(compare.FindChangesInSchemas(s.o.doc, s.n.doc))
	nd.Obs("breaks", b)
	nd.Assert(b, "what a client could rely on is lost only with a Breaking change")
	nd.Reach("lost")
}

// H_C24_pairs: Bounds: every pair (quick: those of neighbours) of 31 declarations (one per grammar construct), alone or with a second one of 5 on either side, with symbolic names of one capital letter.
func H_C24_pairs() {
	i := nd.Choice("old", len(gen.Menu))
	j := 0
	if nd.Deep() {
		j = nd.Choice("new", len(gen.Menu))
	} else {
		j = (i + []int{0, 1, 2, 3, len(gen.Menu) - 1, len(gen.Menu) - 2, 7}[nd.Choice("new", 7)]) % len(gen.Menu)
	}
	m := []string{"", "extend type X { z(a: Int!): Int }", "extend enum X { Z }\nextend union X = Z", "directive @X(z: Int = 1) on FIELD\nextend input X { z: Int = 2 }", "extend schema { query: X }"}
	k := nd.Choice("more", len(m))
	l := (k + nd.Choice("also", 2)*4) % len(m)
	textScn(gen.Text(gen.Menu[i], nd.BytesOf("oldname", 1, "AXY"))+"\n"+m[k], m[l]+"\n"+gen.Text(gen.Menu[j], nd.BytesOf("newname", 1, "AXY"))).sound()
}

// H_C24_busy: Bounds: 9 texts with up to 20 differences in and around one type, extension, directive definition or schema block, any one of them (or any two: thorough), either way round,
// type and member names with a symbolic byte.
func H_C24_busy() {
	d := busyDocs[busyOrder[nd.Choice("schema", len(busyOrder))]]
	ext := ""
	if d.ext && nd.Choice("extension", 2) == 1 {
		ext = "extend "
	}
	names := []string{"Q" + nd.BytesOf("type", 1, "XYxy"), "q" + nd.BytesOf("member", 1, "XYxy")}
	i := nd.Choice("difference", len(d.edits))
	j := i
	if nd.Deep() {
		j = nd.Choice("another", len(d.edits))
	}
	old, nw := edited(d, ext, names, func(k int) bool { return k == i || k == j })
	if nd.Choice("way round", 2) == 1 {
		old, nw = nw, old
	}
	textScn(old, nw).sound()
}

// H_C24_types: Bounds: those of H_C04_types.
func H_C24_types() { scTypes().sound() }

// H_C24_both: Bounds: those of H_C04_both.
func H_C24_both() { scTypesBoth().sound() }

// H_C24_items: Bounds: lists of up to 2 arguments, input fields or fields out of 9 with a symbolic name, in 6 places of a definition or an extension, against each other.
func H_C24_items() {
	type place struct {
		text string
		ext  bool
		out  bool
	}
	p := []place{{"^type T { f(z: Int, $): Int }", true, false}, {"^interface T { g: Int f($ z: Int): Int }", true, false}, {"^input T { z: Int $ }", true, false},
		{"directive @d(z: Int, $) on FIELD", false, false}, {"^type T { z: Int $ }", true, true}, {"^interface T { z: Int $ }", true, true}}[nd.Choice("place", 6)]
	ext := ""
	if p.ext && nd.Choice("extension", 2) == 1 {
		ext = "extend "
	}
	list := func(label string) string {
		a := []string{"", "a: Int", "a: Int!", "a: [Int!]! = []"}
		b := []string{"", "N: Int", "N: Int!", "N: Int! = 1", "N: [Int]!", "N: [[Int]!]!"}
		if p.out {
			a = []string{"", "a: Int", "a: Int!", "a: [Int!]!", "a: [Int]!"}
			b = []string{"", "N: Int", "N(a: Int!): Int", "N(a: [Int]! b: [Int!]): Int"}
		}
		l := a[nd.Choice(label, len(a))]
		if k := nd.Choice(label, len(b)); k > 0 {
			l += " " + gen.Text(b[k], nd.BytesOf(label+" name", 1, "bcB"))
		}
		return strings.ReplaceAll(strings.ReplaceAll(p.text, "^", ext), "$", l)
	}
	textScn(list("old"), list("new")).sound()
}

// H_C24_divided: Bounds: an extended type of each of 6 kinds, or the schema, with 4 of 5 parts in up to 2 (thorough: 3) extension blocks, against the same without one part, either way round.
func H_C24_divided() {
	kind := nd.Choice("kind", len(extendable))
	skip, gone := nd.Choice("skip", 5), nd.Choice("gone", 5)
	var l, m [3][]string
	for i, p := range extendable[kind].parts {
		if i == skip {
			continue
		}
		k := 0
		if nd.Deep() {
			k = nd.Choice("block", 3)
		} else {
			k = nd.Choice("block", 2)
		}
		l[k] = append(l[k], p)
		if i != gone {
			m[k] = append(m[k], p)
		}
	}
	o, n := block(kind, l[0])+block(kind, l[1])+block(kind, l[2]), block(kind, m[0])+block(kind, m[1])+block(kind, m[2])
	if nd.Choice("way round", 2) == 1 {
		o, n = n, o
	}
	textScn(o, n).sound()
}

// H_C24_enum: Bounds: those of H_C08_values.
func H_C24_enum() { scEnum().sound() }

// H_C24_union: Bounds: those of H_C09_union.
func H_C24_union() { scUnion().sound() }

// H_C24_interfaces: Bounds: those of H_C09_interfaces.
func H_C24_interfaces() { scInterfaces().sound() }

// H_C24_fieldtype: Bounds: those of H_C02_type.
func H_C24_fieldtype() { scFieldType().sound() }

// H_C24_fieldtypes: Bounds: those of H_C02_many.
func H_C24_fieldtypes() { scFieldTypes().sound() }

// H_C24_intypes: Bounds: those of H_C03_many.
func H_C24_intypes() { scInTypes().sound() }

// H_C24_dirmix: Bounds: those of H_C10_mix.
func H_C24_dirmix() { scDirMix().sound() }

// H_C24_locations: Bounds: those of H_C10_locations.
func H_C24_locations() { scLocations().sound() }

// H_C24_ops: Bounds: those of H_C12_both.
func H_C24_ops() { scOpsBoth().sound() }

// H_C24_roles: Bounds: those of H_C15_roles.
func H_C24_roles() { scRoles().sound() }

// H_C24_blocks: Bounds: those of H_C15_blocks.
func H_C24_blocks() { scBlocks().sound() }

// H_C24_kitchen: Bounds: those of H_C15_kitchen.
func H_C24_kitchen() { scKitchen().sound() }
