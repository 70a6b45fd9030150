package hcompare

import (
	"strings"

	"github.com/CrowdStrike/gql/pkg/compare"
	"github.com/CrowdStrike/gql/zzverif/nd"
)

// ---- C20

// single is a pair of schemas with one difference. $a to $d are symbolic names, ^ is nothing or "extend " on both sides,
// the places are lines of the old (o) or new (n) version.
type single struct {
	old, nw string
	typ     string
	dir     byte // a addition, r removal, c change
	names   string
	places  string
}

var singles = []single{
	// types
	{"enum Z { A }\n^type $a { f: Int }", "enum Z { A }", "TYPE_REMOVED", 'r', "$a", "o2"},
	{"enum Z { A }", "enum Z { A }\n\n^interface $a { f: Int }", "TYPE_ADDED", 'a', "$a", "n3"},
	{"^enum $a @x", "\n^input $a @x", "TYPE_KIND_CHANGED", 'c', "$a", "n2 o1"},
	{"type Z\n\"x\"\ntype $a", "type Z\n\"y\"\ntype $a", "TYPE_DESCRIPTION_CHANGED", 'c', "$a", "n3 o3 n2 o2"},
	{"type Z\nscalar $a", "type Z\n\"y\" scalar $a", "TYPE_DESCRIPTION_CHANGED", 'c', "$a", "n2 o2"},
	// directive definitions
	{"type Z\n\ndirective @$a on FIELD", "type Z", "DIRECTIVE_REMOVED", 'r', "@$a", "o3"},
	{"type Z", "type Z\ndirective @$a on FIELD", "DIRECTIVE_ADDED", 'a', "@$a", "n2"},
	{"\"x\" directive @$a on FIELD", "\ndirective @$a on FIELD", "DIRECTIVE_DESCRIPTION_CHANGED", 'c', "@$a", "n2 o1"},
	{"directive @$a on FIELD | OBJECT", "\n\ndirective @$a on FIELD", "DIRECTIVE_LOCATION_REMOVED", 'r', "@$a OBJECT", "n3 o1"},
	{"directive @$a on FIELD", "\ndirective @$a on FIELD | UNION", "DIRECTIVE_LOCATION_ADDED", 'a', "@$a UNION", "n2"},
	{"directive @$a repeatable on FIELD", "\ndirective @$a on FIELD", "DIRECTIVE_REPEATABLE_REMOVED", 'r', "@$a", "n2 o1"},
	{"directive @$a on FIELD", "\ndirective @$a repeatable on FIELD", "DIRECTIVE_REPEATABLE_ADDED", 'a', "@$a", "n2"},
	{"directive @$a(x: Int) on FIELD", "directive @$a(\n x: Int\n $b: $c!) on FIELD", "DIRECTIVE_ARGUMENT_ADDED", 'a', "@$a $b", "n3"},
	{"directive @$a(x: Int) on FIELD", "directive @$a(\n x: Int\n $b: $c) on FIELD", "DIRECTIVE_ARGUMENT_ADDED", 'a', "@$a $b", "n3"},
	{"directive @$a(\n $b: $c!\n x: Int) on FIELD", "\n\n\ndirective @$a(x: Int) on FIELD", "DIRECTIVE_ARGUMENT_REMOVED", 'r', "@$a $b", "n4 o2"},
	{"directive @$a(x: Int\n $b: Int) on FIELD", "directive @$a(\n\"d\"\n $b: Int x: Int) on FIELD", "DIRECTIVE_ARGUMENT_DESCRIPTION_CHANGED", 'c', "@$a $b", "n3 n2 o2"},
	{"directive @$a(x: Int\n $b: [$c!]) on FIELD", "directive @$a(\n\n $b: $d x: Int) on FIELD", "DIRECTIVE_ARGUMENT_TYPE_CHANGED", 'c', "@$a $b '[$c!]' '$d'", "n3 o2"},
	{"directive @$a(x: Int\n $b: E = $c) on FIELD", "directive @$a(\n\n $b: E = $d x: Int) on FIELD", "DIRECTIVE_ARGUMENT_DEFAULT_VALUE_CHANGED", 'c', "@$a $b '$c' '$d'", "n3 o2"},
	// enum values
	{"^enum $a {\n A\n $b\n}", "^enum $a { A }", "ENUM_VALUE_REMOVED", 'r', "$a $b", "o3 n1"},
	{"^enum $a {\n A\n $b @deprecated\n}", "^enum $a { A }", "ENUM_VALUE_REMOVED", 'r', "$a $b", "o3 n1"},
	{"^enum $a { A }", "^enum $a {\n A\n $b\n}", "ENUM_VALUE_ADDED", 'a', "$a $b", "n3"},
	{"^enum $a {\n A\n $b\n}", "^enum $a {\n\n A\n \"d\" $b\n}", "ENUM_VALUE_DESCRIPTION_CHANGED", 'c', "$a $b", "n4 o3"},
	{"^enum $a {\n A\n $b\n}", "^enum $a {\n\n A\n $b @deprecated\n}", "ENUM_VALUE_DEPRECATION_ADDED", 'a', "$a $b", "n4"},
	{"^enum $a {\n A\n $b @deprecated\n}", "^enum $a {\n\n A\n $b\n}", "ENUM_VALUE_DEPRECATION_REMOVED", 'r', "$a $b", "n4 o3"},
	{"^enum $a {\n A\n $b @deprecated(reason: \"x\")\n}", "^enum $a {\n\n A\n $b @deprecated(reason: \"y\")\n}", "ENUM_VALUE_DEPRECATION_REASON_CHANGED", 'c', "$a $b", "n4 o3"},
	// fields
	{"^type $a {\n x: Int\n $b: Int\n}", "\n^type $a {\n x: Int\n}", "FIELD_REMOVED", 'r', "$a.$b", "o3 n2"},
	{"^type $a {\n x: Int\n $b: Int @deprecated\n}", "\n^type $a {\n x: Int\n}", "FIELD_REMOVED", 'r', "$a.$b", "o3 n2"},
	{"^interface $a {\n x: Int\n}", "^interface $a {\n $b: Int\n x: Int\n}", "FIELD_ADDED", 'a', "$a.$b", "n2"},
	{"^interface $a {\n x: Int\n $b: Int\n}", "^interface $a {\n \"d\" $b: Int\n x: Int\n}", "FIELD_DESCRIPTION_CHANGED", 'c', "$a.$b", "n2 o3"},
	{"^type $a {\n x: Int\n $b: Int\n}", "^type $a {\n $b: Int @deprecated\n x: Int\n}", "FIELD_DEPRECATION_ADDED", 'a', "$a.$b", "n2"},
	{"^type $a {\n x: Int\n $b: Int @deprecated\n}", "^type $a {\n $b: Int\n x: Int\n}", "FIELD_DEPRECATION_REMOVED", 'r', "$a.$b", "n2 o3"},
	{"^interface $a {\n x: Int\n $b: Int @deprecated(reason: \"x\")\n}", "^interface $a {\n $b: Int @deprecated(reason: \"y\")\n x: Int\n}", "FIELD_DEPRECATION_REASON_CHANGED", 'c', "$a.$b", "n2 o3"},
	{"^type $a {\n x: Int\n $b: $c\n}", "^type $a {\n $b: [$d]!\n x: Int\n}", "FIELD_TYPE_CHANGED", 'c', "$a.$b '$c' '[$d]!'", "n2 o3"},
	{"^interface $a {\n x: Int\n $b: [$c]!\n}", "^interface $a {\n $b: [$c!]!\n x: Int\n}", "FIELD_TYPE_CHANGED", 'c', "$a.$b '[$c]!' '[$c!]!'", "n2 o3"},
	// arguments
	{"^type $a {\n $b(x: Int): Int\n}", "^type $a {\n $b(\n x: Int\n $c: Int!): Int\n}", "FIELD_ARGUMENT_ADDED", 'a', "$a.$b $c", "n4"},
	{"^interface $a {\n $b(x: Int): Int\n}", "^interface $a {\n $b(\n x: Int\n $c: Int): Int\n}", "FIELD_ARGUMENT_ADDED", 'a', "$a.$b $c", "n4"},
	{"^type $a {\n $b(x: Int,\n $c: $d): Int\n}", "^type $a {\n\n $b(\n x: Int\n): Int\n}", "FIELD_ARGUMENT_REMOVED", 'r', "$a.$b $c", "o3 n3"},
	{"^type $a {\n $b(x: Int,\n $c: Int): Int\n}", "^type $a {\n\n $b(\n \"d\" $c: Int x: Int\n): Int\n}", "FIELD_ARGUMENT_DESCRIPTION_CHANGED", 'c', "$a.$b $c", "o3 n4"},
	{"^interface $a {\n $b(x: Int,\n $c: I = $d): Int\n}", "^interface $a {\n\n $b(\n $c: I = 7 x: Int\n): Int\n}", "FIELD_ARGUMENT_DEFAULT_CHANGED", 'c', "$a.$b $c '$d' '7'", "o3 n4"},
	{"^type $a {\n $b(x: Int,\n $c: [[$d]!]): Int\n}", "^type $a {\n\n $b(\n $c: $d x: Int\n): Int\n}", "FIELD_ARGUMENT_TYPE_CHANGED", 'c', "$a.$b $c '[[$d]!]' '$d'", "o3 n4"},
	// input fields
	{"^input $a {\n x: Int\n $b: Int\n}", "\n^input $a {\n x: Int\n}", "INPUT_FIELD_REMOVED", 'r', "$a.$b", "o3 n2"},
	{"^input $a {\n x: Int\n $b: Int @deprecated\n}", "\n^input $a {\n x: Int\n}", "INPUT_FIELD_REMOVED", 'r', "$a.$b", "o3 n2"},
	{"^input $a {\n x: Int\n}", "^input $a {\n $b: Int\n x: Int\n}", "INPUT_FIELD_ADDED", 'a', "$a $b", "n2"},
	{"^input $a {\n x: Int\n}", "^input $a {\n $b: Int!\n x: Int\n}", "INPUT_FIELD_ADDED", 'a', "$a $b", "n2"},
	{"^input $a {\n x: Int\n $b: Int\n}", "^input $a {\n \"d\" $b: Int\n x: Int\n}", "INPUT_FIELD_DESCRIPTION_CHANGED", 'c', "$a.$b", "n2 o3"},
	{"^input $a {\n x: Int\n $b: Int = 5\n}", "^input $a {\n $b: Int = 7\n x: Int\n}", "INPUT_FIELD_DEFAULT_VALUE_CHANGED", 'c', "$a.$b '5' '7'", "n2 o3"},
	{"^input $a {\n x: Int\n $b: $c\n}", "^input $a {\n $b: [$d]!\n x: Int\n}", "INPUT_FIELD_TYPE_CHANGED", 'c', "$a.$b '$c' '[$d]!'", "n2 o3"},
	{"^input $a {\n x: Int\n $b: Int\n}", "^input $a {\n $b: Int @deprecated\n x: Int\n}", "INPUT_FIELD_DEPRECATION_ADDED", 'a', "$a.$b", "n2"},
	{"^input $a {\n x: Int\n $b: Int @deprecated\n}", "^input $a {\n $b: Int\n x: Int\n}", "INPUT_FIELD_DEPRECATION_REMOVED", 'r', "$a.$b", "n2 o3"},
	{"^input $a {\n x: Int\n $b: Int @deprecated(reason: \"x\")\n}", "^input $a {\n $b: Int @deprecated(reason: \"y\")\n x: Int\n}", "INPUT_FIELD_DEPRECATION_REASON_CHANGED", 'c', "$a.$b", "n2 o3"},
	// interfaces and members
	{"^type $a implements X & $b { x: Int }", "\n^type $a implements X { x: Int }", "OBJECT_TYPE_INTERFACE_REMOVED", 'r', "$a $b", "n2 o1"},
	{"^type $a implements X { x: Int }", "\n^type $a implements X & $b { x: Int }", "OBJECT_TYPE_INTERFACE_ADDED", 'a', "$a $b", "n2"},
	{"^union $a = X | $b", "\n^union $a = X", "UNION_MEMBER_REMOVED", 'r', "$a $b", "n2 o1"},
	{"^union $a = X", "\n\n^union $a = $b | X", "UNION_MEMBER_ADDED", 'a', "$a $b", "n3"},
	// root operations
	{"^schema {\n query: $a\n}", "^schema {\n\n query: $b\n}", "SCHEMA_QUERY_TYPE_CHANGED", 'c', "query '$a' '$b'", "n3 o2"},
	{"^schema {\n mutation: $a\n}", "^schema {\n\n mutation: $b\n}", "SCHEMA_MUTATION_TYPE_CHANGED", 'c', "mutation '$a' '$b'", "n3 o2"},
	{"^schema {\n subscription: $a\n}", "^schema {\n\n subscription: $b\n}", "SCHEMA_SUBSCRIPTION_TYPE_CHANGED", 'c', "subscription '$a' '$b'", "n3 o2"},
	{"^schema {\n query: X\n mutation: $a\n}", "^schema {\n query: X\n}", "SCHEMA_MUTATION_TYPE_CHANGED", 'r', "mutation '$a'", "o3"},
	{"^schema {\n query: X\n}", "^schema {\n query: X\n subscription: $a\n}", "SCHEMA_SUBSCRIPTION_TYPE_CHANGED", 'a', "subscription '$a'", "n3"},
	{"type Z", "type Z\n^schema {\n query: $a\n}", "SCHEMA_QUERY_TYPE_CHANGED", 'a', "query '$a'", "n3"},
	{"type Z\n^schema {\n query: $a\n}", "type Z", "SCHEMA_QUERY_TYPE_CHANGED", 'r', "query '$a'", "o3"},
	// applied directives
	{"^type $a\n @$b\n { x: Int }", "\n^type $a { x: Int }", "DIRECTIVE_REMOVED", 'r', "@$b $a", "n2 o1 o2"},
	{"^interface $a { x: Int }", "\n^interface $a\n @$b { x: Int }", "DIRECTIVE_ADDED", 'a', "@$b $a", "n2 n3"},
	{"^type $a {\n x: Int\n $b: Int @$c }", "\n^type $a {\n x: Int\n $b: Int }", "DIRECTIVE_REMOVED", 'r', "@$c $a.$b", "n4 o3"},
	{"^input $a {\n x: Int\n $b: Int }", "\n^input $a {\n x: Int\n $b: Int\n @$c }", "DIRECTIVE_ADDED", 'a', "@$c $a.$b", "n4 n5"},
	{"^type $a\n @$b(y: 1) { x: Int }", "\n^type $a\n @$b(y: 1 $c: 2) { x: Int }", "DIRECTIVE_ARGUMENT_ADDED", 'a', "@$b $c $a", "n2 n3"},
	{"^type $a\n @$b(y: 1 $c: 2) { x: Int }", "\n^type $a\n @$b(y: 1) { x: Int }", "DIRECTIVE_ARGUMENT_REMOVED", 'r', "@$b $c $a", "n2 n3 o1 o2"},
	{"^interface $a {\n x: Int\n $b: Int @$c(y: 1 $d: \"5\") }", "\n^interface $a {\n $b: Int\n @$c(y: 1 $d: [7]) x: Int }", "DIRECTIVE_ARGUMENT_VALUE_CHANGED", 'c', "@$c $d '\"5\"' '[7]' $a.$b", "n3 n4 o3"},
	{"^type $a @$b @$b(y: 1) { x: Int }", "\n^type $a @$b @$b(y: 2) { x: Int }", "DIRECTIVE_CHANGED", 'c', "@$b $a", "n2 o1"},
	{"^input $a {\n x: Int @$b(y: 1) @$b(y: 2) }", "\n^input $a {\n\n x: Int @$b(y: 1) @$b(y: 3) }", "DIRECTIVE_CHANGED", 'c', "@$b $a.x", "n4 o2"},
}

// substitute fills the placeholders of the text.
func substitute(t, ext string, names []string) string {
	out := ""
	last := 0
	for i := 0; i < len(t); i++ {
		switch {
		case t[i] == '^':
			out += t[last:i] + ext
			last = i + 1
		case t[i] == '$':
			out += t[last:i] + names[t[i+1]-'a']
			i++
			last = i + 1
		}
	}
	return out + t[last:]
}

// H_C20_single: Bounds: every kind of change (75 pairs of schemas with one difference), of definitions and of extensions, with 4 symbolic names, of up to 3 characters each, and 0..2 lines before the old or the new schema.
func H_C20_single() {
	c := singles[nd.Choice("change", len(singles))]
	ext := ""
	if strings.Contains(c.old+c.nw, "^") && nd.Choice("extension", 2) == 1 {
		ext = "extend "
	}
	names := make([]string, 4)
	for i := range names {
		names[i] = "Q" + string(rune('a'+i)) + nd.BytesOf("name", 1, "XYZxyz_019")
	}
	lo, ln := 0, 0
	if k := nd.Choice("shift", 3); k == 1 {
		lo = 2
	} else if k == 2 {
		ln = 1
	}
	s := textScn(strings.Repeat("\n", lo)+substitute(c.old, ext, names), strings.Repeat("\n", ln)+substitute(c.nw, ext, names))
	var found *compare.Change
	n := 0
	for _, x := range compare.FindChangesInSchemas(s.o.doc, s.n.doc) {
		if string(x.GetChangeType()) == c.typ {
			found = x
			n++
		}
	}
	nd.Assert(n == 1, "the change is reported once")
	msg := found.GetMessage()
	nd.Obs("message", msg)
	for _, w := range strings.Split(c.names, " ") {
		nd.Assert(strings.Contains(msg, substitute(w, "", names)), "the message names what changed")
	}
	if c.dir == 'a' {
		nd.Assert(!strings.Contains(msg, "removed") && !strings.Contains(msg, "no longer"), "an addition is not called a removal")
	}
	if c.dir == 'r' {
		nd.Assert(!strings.Contains(msg, "added"), "a removal is not called an addition")
	}
	p := found.GetPosition()
	nd.Assert(p != nil && p.Src != nil, "the change has a position")
	ok := false
	for _, at := range strings.Split(c.places, " ") {
		line := int(at[1] - '0')
		if at[0] == 'o' && p.Src.Name == "old.graphql" && p.Line == line+lo || at[0] == 'n' && p.Src.Name == "new.graphql" && p.Line == line+ln {
			ok = true
		}
	}
	nd.Obs("line", p.Line)
	nd.Assert(ok, "the change points at what changed")
	nd.Reach("change")
}
