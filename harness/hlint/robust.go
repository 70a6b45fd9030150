package hlint

import (
	"github.com/vektah/gqlparser/v2/ast"
	"github.com/vektah/gqlparser/v2/parser"

	lint "github.com/CrowdStrike/gql/cmd/linter"
	"github.com/CrowdStrike/gql/zzverif/gen"
	"github.com/CrowdStrike/gql/zzverif/nd"
)

// ---- L12

// survives lints a text the parser accepts.
func survives(t string) {
	if _, err := parser.ParseSchema(&ast.Source{Name: "f.graphql", Input: t}); err != nil {
		nd.Reach("rejected")
		nd.Assume(false)
	}
	errs := lint.Lint("f.graphql", t, allRules())
	for _, e := range errs {
		nd.Assert(e.Err != nil && e.Line > 0, "an error has a message and a line")
	}
	nd.Obs("errors", len(errs))
	nd.Reach("linted")
}

// H_L12_comment: Bounds: a comment of up to 3 (thorough 4) arbitrary bytes before, inside or after a type, or as the whole text.
func H_L12_comment() {
	c := "#" + anything("comment", tier(3, 4))
	survives([]string{c, c + "\ntype A { f: Int }", "type A { " + c + "\n f: Int }", "type A { f: Int }" + c}[nd.Choice("where", 4)])
}

// H_L12_command: Bounds: a comment that starts like a command, "#lint-" or "#lint-disable", followed by up to 3 (thorough 4) arbitrary bytes.
func H_L12_command() {
	c := []string{"#lint-", "#lint-disable", "#lint-enable ", "#lint-disable-line", "#lint", "# lint-"}[nd.Choice("prefix", 6)] + anything("rest", tier(3, 4))
	survives([]string{c + "\ntype a_B { f: Int }", "type A { F_: Int }" + c}[nd.Choice("where", 2)])
}

// H_L12_string: Bounds: a description in a string or block string with up to 3 (thorough 4) arbitrary bytes, or as a default value.
func H_L12_string() {
	s := anything("text", tier(3, 4))
	q := []string{"\"", "\"\"\""}[nd.Choice("quote", 2)]
	survives([]string{q + s + q + "type A", "type A { f(a: S = " + q + s + q + "): Int }"}[nd.Choice("where", 2)])
}

// H_L12_declarations: Bounds: every one of 31 declarations alone or before one of 4 others, with symbolic names of a letter or underscore (one of 5, thorough of 12) and one of 3 endings.
func H_L12_declarations() {
	first := "AaN_q"
	if nd.Deep() {
		first = "AaBbEeNnQq_z"
	}
	name := nd.BytesOf("name", 1, first) + []string{"", "Connection", "_1"}[nd.Choice("ending", 3)]
	t := gen.Text(gen.Menu[nd.Choice("first", len(gen.Menu))], name)
	survives(t + "\n" + []string{"", "enum X { a b }", "extend type AConnection { edges: Int }", "type q { f(first: Int): aConnection }"}[nd.Choice("second", 4)])
}

// H_L12_connection: Bounds: a connection type and a field of it, with field and argument types in any of 6 forms each.
func H_L12_connection() {
	ts := []string{"Int", "Int!", "[Int]", "[Int!]!", "[[Int]!]", "PageInfo!"}
	pick := func(l string) string { return ts[nd.Choice(l, len(ts))] }
	t := "type AConnection { edges: " + pick("edges") + " pageInfo: " + pick("pageInfo") + " }\n"
	switch nd.Choice("args", 5) {
	case 0:
		t += "type Q { f: AConnection }"
	case 1:
		t += "type Q { f(first: " + pick("first") + "): [AConnection!]! }"
	case 2:
		t += "interface Q { f(after: ID first: " + pick("first") + "): AConnection! }"
	case 3:
		t += "extend type Q { f(before: ID last: " + pick("last") + "): AConnection }"
	case 4:
		t += "type Q { f(before: ID last: " + pick("last") + " first: Int after: ID): AConnection } input AConnection { x: [[AConnection]] }"
	}
	survives(t)
}

// H_L12_free: Bounds: any text of up to 4 (thorough 5) arbitrary bytes that the parser accepts.
func H_L12_free() {
	survives(anything("text", tier(4, 5)))
}

// anything is a string of up to max bytes (a case split over the length).
func anything(label string, max int) string {
	return nd.Bytes(label, nd.Choice(label+" length", max+1))
}
