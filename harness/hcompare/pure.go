package hcompare

import (
	"strings"

	"github.com/vektah/gqlparser/v2/ast"

	"github.com/CrowdStrike/gql/pkg/compare"
	"github.com/CrowdStrike/gql/zzverif/gen"
	"github.com/CrowdStrike/gql/zzverif/nd"
)

// ---- C22: comparing leaves the documents alone, so that comparing again gives the same.

// snap writes down everything a document holds.
type snap struct {
	s []string
	n []int
}

func (w *snap) str(l ...string) { w.s = append(w.s, l...) }

func (w *snap) pos(p *ast.Position) {
	if p == nil {
		w.n = append(w.n, -1)
		return
	}
	w.n = append(w.n, p.Line, p.Column, p.Start, p.End)
	w.str(p.Src.Name)
}

func (w *snap) typ(t *ast.Type) {
	if t == nil {
		w.n = append(w.n, -2)
		return
	}
	w.str(t.NamedType)
	w.n = append(w.n, nd.If(t.NonNull, 1, 0))
	w.pos(t.Position)
	w.typ(t.Elem)
}

func (w *snap) value(v *ast.Value) {
	if v == nil {
		w.n = append(w.n, -3)
		return
	}
	w.str(v.Raw)
	w.n = append(w.n, int(v.Kind), len(v.Children))
	w.pos(v.Position)
	for _, c := range v.Children {
		w.str(c.Name)
		w.pos(c.Position)
		w.value(c.Value)
	}
}

func (w *snap) dirs(l ast.DirectiveList) {
	w.n = append(w.n, len(l))
	for _, d := range l {
		w.str(d.Name)
		w.pos(d.Position)
		w.n = append(w.n, len(d.Arguments))
		for _, a := range d.Arguments {
			w.str(a.Name)
			w.pos(a.Position)
			w.value(a.Value)
		}
	}
}

func (w *snap) args(l ast.ArgumentDefinitionList) {
	w.n = append(w.n, len(l))
	for _, a := range l {
		w.str(a.Name, a.Description)
		w.pos(a.Position)
		w.typ(a.Type)
		w.value(a.DefaultValue)
		w.dirs(a.Directives)
	}
}

func (w *snap) defs(l ast.DefinitionList) {
	w.n = append(w.n, len(l))
	for _, d := range l {
		w.str(d.Name, string(d.Kind), d.Description)
		w.pos(d.Position)
		w.n = append(w.n, len(d.Interfaces), len(d.Types), len(d.Fields), len(d.EnumValues))
		w.str(d.Interfaces...)
		w.str(d.Types...)
		w.dirs(d.Directives)
		for _, f := range d.Fields {
			w.str(f.Name, f.Description)
			w.pos(f.Position)
			w.typ(f.Type)
			w.value(f.DefaultValue)
			w.args(f.Arguments)
			w.dirs(f.Directives)
		}
		for _, v := range d.EnumValues {
			w.str(v.Name, v.Description)
			w.pos(v.Position)
			w.dirs(v.Directives)
		}
	}
}

func (w *snap) schemas(l ast.SchemaDefinitionList) {
	w.n = append(w.n, len(l))
	for _, s := range l {
		w.str(s.Description)
		w.pos(s.Position)
		w.dirs(s.Directives)
		w.n = append(w.n, len(s.OperationTypes))
		for _, o := range s.OperationTypes {
			w.str(string(o.Operation), o.Type)
			w.pos(o.Position)
		}
	}
}

func snapOf(d *ast.SchemaDocument) *snap {
	w := &snap{}
	w.schemas(d.Schema)
	w.schemas(d.SchemaExtension)
	w.defs(d.Definitions)
	w.defs(d.Extensions)
	w.n = append(w.n, len(d.Directives))
	for _, x := range d.Directives {
		w.str(x.Name, x.Description)
		w.pos(x.Position)
		w.args(x.Arguments)
		w.n = append(w.n, len(x.Locations), nd.If(x.IsRepeatable, 1, 0))
		for _, l := range x.Locations {
			w.str(string(l))
		}
	}
	return w
}

func (w *snap) same(v *snap, msg string) {
	nd.Assert(len(w.s) == len(v.s) && len(w.n) == len(v.n), msg)
	ok := true
	for i := range w.n {
		ok = nd.And(ok, w.n[i] == v.n[i])
	}
	nd.Assert(ok, msg)
	for i := range w.s {
		ok = nd.And(ok, w.s[i] == v.s[i])
	}
	nd.Assert(ok, msg)
}

func sameList(a, b []*compare.Change) {
	nd.Assert(len(a) == len(b), "comparing again finds the same changes")
	for _, c := range a {
		nd.Assert(times(c, a) == times(c, b), "comparing again finds the same changes")
		nd.Assert(timesAt(c, a) == timesAt(c, b), "comparing again finds the same places")
	}
}

// timesAt is how often a change of that type has that place.
func timesAt(c *compare.Change, l []*compare.Change) int {
	n := 0
	for _, x := range l {
		if x.GetChangeType() == c.GetChangeType() && x.GetPosition().Line == c.GetPosition().Line && x.GetPosition().Src == c.GetPosition().Src {
			n++
		}
	}
	return n
}

// pure compares, reports, and compares again.
func (s *scn) pure() {
	o, n := snapOf(s.o.doc), snapOf(s.n.doc)
	a := compare.FindChangesInSchemas(s.o.doc, s.n.doc)
	b := append([]*compare.Change{}, a...)
	g := compare.GroupChanges(a)
	nd.Capture(func() {
		compare.ReportBreakingChanges(g[compare.Breaking], true)
		compare.ReportDangerousChanges(g[compare.Dangerous], true)
		compare.ReportNonBreakingChanges(g[compare.NonBreaking], true)
	})
	snapOf(s.o.doc).same(o, "the old schema is as it was")
	snapOf(s.n.doc).same(n, "the new schema is as it was")
	nd.Obs("changes", len(b))
	sameList(b, compare.FindChangesInSchemas(s.o.doc, s.n.doc))
	// a comparison in between has no effect either
	compare.FindChangesInSchemas(s.n.doc, s.o.doc)
	compare.FindChangesInSchemas(s.n.doc, s.n.doc)
	sameList(b, compare.FindChangesInSchemas(s.o.doc, s.n.doc))
	snapOf(s.o.doc).same(o, "the old schema is as it was")
	snapOf(s.n.doc).same(n, "the new schema is as it was")
	if len(b) > 0 {
		nd.Reach("changes")
	} else {
		nd.Reach("none")
	}
}

// edited are the old and the new text of a busy document with every second difference, starting at k.
func edited(d busyDoc, ext string, names []string, on func(i int) bool) (old, nw string) {
	t := d.text
	last := 0
	for p := 0; p < len(t); p++ {
		if t[p] != '~' {
			continue
		}
		old, nw = old+t[last:p], nw+t[last:p]
		for i, e := range d.edits {
			if e.key != t[p+1] || ext != "" && strings.HasPrefix(e.want, "C14 TYPE_") {
				continue
			}
			old += e.old
			if on(i) {
				nw += e.nw
			} else {
				nw += e.old
			}
		}
		last = p + 2
	}
	return substitute(old+t[last:], ext, names), substitute(nw+t[last:], ext, names)
}

// H_C22_busy: Bounds: 9 texts with up to 20 differences in and around one type, extension, directive definition or schema block, all of one of 9 residues or all at once,
// once or as two blocks of the same type, type and member names with a symbolic byte.
func H_C22_busy() {
	d := busyDocs[busyOrder[nd.Choice("schema", len(busyOrder))]]
	ext := ""
	if d.ext && nd.Choice("extension", 2) == 1 {
		ext = "extend "
	}
	names := []string{"Q" + nd.BytesOf("type", 1, "XYxy"), "q" + nd.BytesOf("member", 1, "XYxy")}
	m := nd.Choice("differences", 10)
	old, nw := edited(d, ext, names, func(i int) bool {
		switch {
		case m == 0:
			return true
		case m < 4:
			return i%3 == m-1
		}
		return i%6 == m-4
	})
	if nd.Choice("twice", 2) == 1 {
		more := []string{"Q" + nd.BytesOf("type", 1, "XYxy"), "rz"}
		o2, n2 := edited(d, ext, more, func(i int) bool { return i%2 == 0 })
		old, nw = old+"\n"+o2, n2+"\n"+nw
	}
	textScn(old, nw).pure()
}

// H_C22_pairs: Bounds: every pair of 31 declarations (one per grammar construct), alone or with a second one of 5, with symbolic names of one capital letter.
func H_C22_pairs() {
	i := nd.Choice("old", len(gen.Menu))
	j := 0
	if nd.Deep() {
		j = nd.Choice("new", len(gen.Menu))
	} else {
		j = (i + nd.Choice("new", 6)) % len(gen.Menu)
	}
	more := []string{"", "extend type X @k { z: Int @l(m: 1) @l(m: 2) }", "extend enum X { Z }\nextend union X = Z", "directive @X(z: Int = 1) on FIELD\nextend input X { z: Int = 2 }",
		"extend schema { query: X }"}[nd.Choice("more", 5)]
	textScn(gen.Text(gen.Menu[i], nd.BytesOf("oldname", 1, "AXY"))+"\n"+more, more+"\n"+gen.Text(gen.Menu[j], nd.BytesOf("newname", 1, "AXY"))).pure()
}

// H_C22_blocks: Bounds: those of H_C15_blocks.
func H_C22_blocks() { scBlocks().pure() }

// H_C22_kitchen: Bounds: those of H_C15_kitchen.
func H_C22_kitchen() { scKitchen().pure() }

// H_C22_lists: Bounds: those of H_C11_lists.
func H_C22_lists() { scAppliedLists().pure() }

// unsorted has every kind of list out of order.
const unsorted = `"d" schema @z(q: 2, b: 1) @a { subscription: Z query: N mutation: A }
extend schema @y(q: 2, b: 1)
"d" directive @z(q: Int = 2, b: [Int] = [3, 1], "d" a: O = {z: 1, a: [2, 1]}) repeatable on OBJECT | FIELD | ENUM
directive @a on SCALAR | FIELD
type Z implements Y & N & B @z(q: {z: [3, 1], a: 2}, b: 1, a: "x") @z(q: 3) @a(n: 1, m: N) {
 z(q: Int = 2 @z(q: 2, b: 1), b: [[Int]] = [[2], [1]], a: O = {z: 1, a: 2}): [N!]! @z(q: 2, b: 1) @deprecated(reason: "r") @a
 N: Int
 a: A @a(q: 1, b: 2) @z @a(b: 1)
}
union V @z(q: 2, b: 1) = Z | N | A
enum N @z(q: 2, b: 1) @z(b: 1) { Z @z(q: 2, b: 1) @a N @deprecated @z A }
input O @a { z: Int = 2 @z(q: 2, b: 1) @a q: O = {z: 1, a: {y: 2, b: 1}} N: [Int] = [2, 1] a: E = Z }
interface I implements Z & N & B { z(q: Int, b: Int): Int a: Int }
scalar B @z(q: 2, b: 1) @a(q: 2, b: 1)
type A { f: Int }
extend type Z implements W & C @y(q: 2, b: 1) @b { y(q: Int, b: Int): Int b: Int }
extend type A @z(q: 2, b: 1) { z: Int a: Int }
extend enum N @y { Y B }
extend union V = Y | B
extend input O { y: Int = 1 b: Int @b(q: 2, b: 1) }
extend type A { y(q: Int, b: Int): Int b: Int }`

// unsortedPair is a text with every kind of list out of alphabetical order, and it or it with other names, values or places.
func unsortedPair() (string, string) {
	t := gen.Text(unsorted, nd.BytesOf("name", 1, "HPXhpx_"))
	r := [][2]string{{"", ""}, {"\n", "\n\n"}, {"(q: 2, b: 1)", "(b: 1, q: 2)"}, {"(q: 2, b: 1)", "(q: 3, c: 1)"}, {"(q: Int, b: Int)", "(b: Int, q: Int, a: Int)"}, {" & ", " & M & "}, {" | ", " | M | "},
		{"[2, 1]", "[1, 2]"}, {"extend type A", "extend type Z"}}[nd.Choice("difference", 9)]
	u := t
	if r[0] != "" {
		u = strings.ReplaceAll(t, r[0], r[1])
	}
	if nd.Choice("way round", 2) == 1 {
		t, u = u, t
	}
	return t, u
}

// H_C22_unsorted: Bounds: a text with every kind of list out of alphabetical order, against itself, against it with other names, values or places (8 replacements), either way round; symbolic names of one byte.
func H_C22_unsorted() { textScn(unsortedPair()).pure() }
