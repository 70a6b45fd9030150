package hcompare

import (
	"strings"

	"github.com/vektah/gqlparser/v2/ast"

	"github.com/CrowdStrike/gql/pkg/compare"
	"github.com/CrowdStrike/gql/utils"
	"github.com/CrowdStrike/gql/zzverif/gen"
	"github.com/CrowdStrike/gql/zzverif/nd"
)

// ---- C18: two runs on the same input, the second with any iteration order of every map.

// times is how often the change occurs in the list, positions aside.
func times(c *compare.Change, l []*compare.Change) int {
	n := 0
	for _, x := range l {
		if x.GetChangeType() != c.GetChangeType() || x.GetChangeCriticalityLevel() != c.GetChangeCriticalityLevel() {
			continue
		}
		n += nd.If(nd.And(x.GetMessage() == c.GetMessage(), x.GetPath() == c.GetPath()), 1, 0)
	}
	return n
}

func sameSet(a, b []*compare.Change) {
	nd.Assert(len(a) == len(b), "both runs find the same changes")
	for _, c := range a {
		nd.Assert(times(c, a) == times(c, b), "both runs find the same changes")
	}
	nd.Assert(breaks(a) == breaks(b), "both runs exit with the same status")
	if len(a) > 0 {
		nd.Reach("changes")
	} else {
		nd.Reach("none")
	}
}

func breaks(l []*compare.Change) bool {
	return len(compare.GroupChanges(l)[compare.Breaking]) > 0
}

func (s *scn) stable() {
	a := compare.FindChangesInSchemas(s.o.doc, s.n.doc)
	nd.MapOrders(true)
	b := compare.FindChangesInSchemas(s.o.doc, s.n.doc)
	sameSet(a, b)
	nd.MapOrders(false)
}

// H_C18_types: Bounds: 3 types in both versions (definitions, or 2 definitions and an extension), kinds in 18 combinations with up to 3 differences, every map order.
func H_C18_types() {
	s := newScn()
	names := newNames("name", 3, 2)
	k := allKinds[nd.Choice("kind", len(allKinds))]
	k2 := allKinds[nd.Choice("otherkind", 3)]
	third := nd.Choice("third", 2) == 1
	for i, x := range names {
		ki := []ast.DefinitionKind{k, k2, ast.Object}[i]
		s.o.fill(s.o.def(third && i == 2, ki, x), nd.Name("member", 1), false)
		s.n.fill(s.n.def(third && i == 2, ki, x), nd.Name("member", 1), i == 1)
	}
	s.stable()
}

// H_C18_roles: Bounds: those of H_C15_roles, every map order.
func H_C18_roles() { scRoles().stable() }

// H_C18_blocks: Bounds: those of H_C15_blocks, every map order.
func H_C18_blocks() { scBlocks().stable() }

// H_C18_kitchen: Bounds: those of H_C15_kitchen, every map order.
func H_C18_kitchen() { scKitchen().stable() }

// scAlike is a busy text twice, with the same differences: those of one of 3 residues or all.
func scAlike() *scn {
	d := busyDocs[busyOrder[nd.Choice("schema", len(busyOrder))]]
	ext := ""
	if d.ext && nd.Choice("extension", 2) == 1 {
		ext = "extend "
	}
	m := nd.Choice("differences", 4)
	on := func(i int) bool { return m == 3 || i%3 == m }
	old, nw := "", ""
	for i, l := range []string{"P", "Q", "R"}[:tier(2, 3)] {
		a, b := edited(d, ext, []string{l + nd.BytesOf("type", 1, "xy"[:tier(1, 2)]), "q" + string(rune('a'+i))}, on)
		old, nw = old+a+"\n", nw+b+"\n"
	}
	if nd.Choice("lines", 2) == 1 {
		old, nw = strings.ReplaceAll(old, "\n", " "), strings.ReplaceAll(nw, "\n", " ")
	}
	switch nd.Choice("one side", 3) {
	case 1:
		old = "scalar Only"
	case 2:
		nw = "scalar Only"
	}
	return textScn(old, nw)
}

// H_C18_alike: Bounds: 9 texts with up to 20 differences, twice with other names, on lines of their own or all on one, against each other or a text with none of it, every map order.
func H_C18_alike() { scAlike().stable() }

// H_C23_alike: Bounds: 9 texts with up to 20 differences, twice with other names, on lines of their own or all on one, against each other or a text with none of it, every map order.
func H_C23_alike() { scAlike().printsSame() }

// fileSets are schemas in several files. N is a symbolic name.
var fileSets = [][]string{
	{"type A { f: N }", "type B { g: A }"},
	{"extend type A @key(a: \"1\") { f: N }", "extend type A @key(a: \"2\") { g: N }"},
	{"extend type A { f: Int }", "type A { g: N }", "extend type A { h: N }"},
	{"schema { query: N }", "extend schema { mutation: A }", "extend schema { subscription: N }"},
	{"extend schema @a", "extend schema { query: N }"},
	{"directive @d(a: N) on FIELD", "directive @e on FIELD | OBJECT", "enum E { N }"},
	{"enum E { A B }", "extend enum E { N }", "extend enum E { X }"},
	{"union U = A | N", "interface I { f: Int }", "input P { a: N }"},
	{"extend union U = A", "extend union U = N", "type N"},
	{"type A @a @b(c: 1) { f(x: Int = 1): N @deprecated }", "type B implements I { f: Int }"},
	// declared twice
	{"directive @d(a: N) on FIELD", "directive @d on OBJECT"},
	{"type A { f: N }", "type A { g: N f: Int }", "enum A { N }"},
	{"schema { query: N }", "schema { query: A }"},
	{"type A { f: N }", "type A { f: N }"},
}

func files(label string, set []string, name string) map[string][]byte {
	m := map[string][]byte{}
	for i, t := range set {
		m[label+"/"+string(rune('a'+i))+".graphql"] = []byte(gen.Text(t, name))
	}
	return m
}

func load(m map[string][]byte) *ast.SchemaDocument {
	d, err := utils.ParseSchema(m)
	nd.Assert(err == nil, "the files parse")
	return d
}

// H_C18_files: Bounds: old and new schemas of 2 or 3 files out of 14 sets (4 of them with a declaration in two files; old and new from the same set or the neighbouring ones) with symbolic names of one capital letter,
// every order of the files and of every other map.
func H_C18_files() {
	i := nd.Choice("set", len(fileSets))
	j := i
	if nd.Deep() {
		j = nd.Choice("newset", len(fileSets))
	} else if nd.Choice("newset", 2) == 1 {
		j = (i + 1) % len(fileSets)
	}
	of := files("old", fileSets[i], nd.BytesOf("oldname", 1, "ABIXYZ"))
	nf := files("new", fileSets[j], nd.BytesOf("newname", 1, "ABIXYZ"))
	a := compare.FindChangesInSchemas(load(of), load(nf))
	nd.MapOrders(true)
	o, n := load(of), load(nf)
	b := compare.FindChangesInSchemas(o, n)
	nd.MapOrders(false)
	sameSet(a, b)
}

// ---- C23: what is printed is the same in every run.

func printAll(l []*compare.Change, loc bool) string {
	return nd.Capture(func() {
		g := compare.GroupChanges(l)
		compare.ReportBreakingChanges(g[compare.Breaking], loc)
		compare.ReportDangerousChanges(g[compare.Dangerous], loc)
		compare.ReportNonBreakingChanges(g[compare.NonBreaking], loc)
	})
}

func sameReport(a, b string) {
	nd.Assert(a == b, "both runs print the same")
	if len(a) > 0 {
		nd.Reach("changes")
	} else {
		nd.Reach("none")
	}
}

func (s *scn) printsSame() {
	loc := nd.Choice("location", 2) == 1
	a := printAll(compare.FindChangesInSchemas(s.o.doc, s.n.doc), loc)
	nd.MapOrders(true)
	b := printAll(compare.FindChangesInSchemas(s.o.doc, s.n.doc), loc)
	nd.MapOrders(false)
	sameReport(a, b)
}

// H_C23_files: Bounds: old and new schemas of 2 or 3 files out of 14 sets (old and new from the same set or neighbouring ones) with symbolic names of one capital letter, locations printed or not,
// every order of the files and of every other map.
func H_C23_files() {
	i := nd.Choice("set", len(fileSets))
	j := i
	if nd.Deep() {
		j = nd.Choice("newset", len(fileSets))
	} else if nd.Choice("newset", 2) == 1 {
		j = (i + 1) % len(fileSets)
	}
	of := files("old", fileSets[i], nd.BytesOf("oldname", 1, "AB"))
	nf := files("new", fileSets[j], nd.BytesOf("newname", 1, "AX"))
	loc := nd.Choice("location", 2) == 1
	a := printAll(compare.FindChangesInSchemas(load(of), load(nf)), loc)
	nd.MapOrders(true)
	b := printAll(compare.FindChangesInSchemas(load(of), load(nf)), loc)
	nd.MapOrders(false)
	sameReport(a, b)
}

// H_C23_lines: Bounds: 3 types (with fields, enum values or members), defined or extended, changed in one of 2 ways each, all on one line or on lines of their own, every map order.
func H_C23_lines() {
	sep := []string{" ", "\n"}[nd.Choice("separator", 2)]
	ext := []string{"", "extend "}[nd.Choice("extension", 2)]
	o, n := "", ""
	for _, x := range []string{"A", "B", "C"} {
		k := nd.Choice("kind", tier(3, 4))
		x += nd.BytesOf("name", 1, "xy"[:tier(1, 2)])
		t := []string{"type $ { f: @ }", "enum $ { @ }", "input $ { @: Int }", "union $ = @"}[k]
		c := nd.Choice("change", 3)
		o += sep + ext + strings.ReplaceAll(strings.ReplaceAll(t, "$", x), "@", "Mm")
		n += sep + ext + strings.ReplaceAll(strings.ReplaceAll(t, "$", x), "@", []string{"Mm", "Mn", "mm"}[c])
	}
	textScn(o, n).printsSame()
}

// H_C23_blocks: Bounds: those of H_C15_blocks, locations printed or not, every map order.
func H_C23_blocks() { scBlocks().printsSame() }

// H_C23_kitchen: Bounds: those of H_C15_kitchen, locations printed or not, every map order.
func H_C23_kitchen() { scKitchen().printsSame() }
