package hcompare

import (
	"github.com/vektah/gqlparser/v2/ast"
	"github.com/vektah/gqlparser/v2/parser"

	"github.com/CrowdStrike/gql/pkg/compare"
	"github.com/CrowdStrike/gql/zzverif/gen"
	"github.com/CrowdStrike/gql/zzverif/nd"
)

// ---- C25: how a schema is written makes no difference.

// rewritten compares both texts as they are, and rewritten. The first version against its rewriting has no change.
func rewritten(mixed bool, old, nw string) {
	k := nd.Choice("way", gen.Rewrites)
	c := ""
	if k == 6 || k == 7 {
		c = nd.BytesOf("comment", 1, "\"#}{a")
	}
	s := textScn(old, nw)
	o2, n2 := gen.Rewrite(old, k, c), gen.Rewrite(nw, k, c)
	for _, t := range []string{o2, n2} {
		_, err := parser.ParseSchema(&ast.Source{Name: "x", Input: t})
		nd.Assert(err == nil, "the rewritten text parses")
	}
	r := textScn(o2, n2)
	a := compare.FindChangesInSchemas(s.o.doc, s.n.doc)
	sameSet(a, compare.FindChangesInSchemas(r.o.doc, r.n.doc))
	if mixed {
		sameSet(a, compare.FindChangesInSchemas(s.o.doc, r.n.doc))
		sameSet(a, compare.FindChangesInSchemas(r.o.doc, s.n.doc))
	}
}

// H_C25_pairs: Bounds: every pair (quick: those of neighbours) of 31 declarations (one per grammar construct), alone or (quick: the same one) with another one of 2, with symbolic names of one capital letter,
// rewritten in 15 ways (blanks, line ends, commas, comments with a symbolic byte, forms of strings, separators), both or one of them.
func H_C25_pairs() {
	i := nd.Choice("old", len(gen.Menu))
	j := i
	m := nd.Choice("more", 3)
	if nd.Deep() {
		j = nd.Choice("new", len(gen.Menu))
	} else if m == 0 {
		j = (i + []int{0, 1, len(gen.Menu) - 1}[nd.Choice("new", 3)]) % len(gen.Menu)
	}
	more := []string{"", "extend type X @k { \"d\" z: Int @l(m: 1) @l(m: 2) }", "\"d\" directive @X(z: Int = 1) on FIELD\nextend input X { z: S = \"d\" }"}[m]
	rewritten(true, gen.Text(gen.Menu[i], nd.BytesOf("oldname", 1, "AXY"))+"\n"+more, more+"\n"+gen.Text(gen.Menu[j], nd.BytesOf("newname", 1, "AXY")))
}

// H_C25_whole: Bounds: a text with every kind of list against itself or one with other names, values or orders (8), either way round, names with a symbolic byte, rewritten in 15 ways (thorough: both or one of them).
func H_C25_whole() {
	o, n := unsortedPair()
	rewritten(nd.Deep(), o, n)
}

// H_C25_strings: Bounds: strings as default values, arguments of directives, and descriptions in 8 places, the same or different in both versions, rewritten in 15 ways, both or one of them; a symbolic byte in the strings.
func H_C25_strings() {
	t := []string{"type T { f(a: S = \"N\", b: [S] = [\"N\", \"d\"]): S }", "input I { a: S = \"N\" b: J = {c: \"N\"} }", "directive @d(a: S = \"N\") on FIELD", "type T @k(a: \"N\") @k(a: [\"d\", \"N\"]) { a: S }",
		"type T { f: S @deprecated(reason: \"N\") }", "enum E { A @deprecated(reason: \"N\") B @k(a: {b: \"N\"}) }", "\"N\" type T { \"N\" f(\"N\" a: S): S } \"N\" scalar V \"N\" enum E { \"N\" A }",
		"\"N\" directive @d(\"N\" a: S) on FIELD extend input I { \"N\" a: S = \"N\" }"}[nd.Choice("text", 8)]
	rewritten(true, gen.Text(t, nd.BytesOf("old", 1, "dNx1")), gen.Text(t, nd.BytesOf("new", 1, "dNx1")))
}
