package hlint

import (
	"strings"

	"github.com/vektah/gqlparser/v2/ast"
	"github.com/vektah/gqlparser/v2/parser"

	lint "github.com/CrowdStrike/gql/cmd/linter"
	"github.com/CrowdStrike/gql/pkg/linter"
	"github.com/CrowdStrike/gql/zzverif/gen"
	"github.com/CrowdStrike/gql/zzverif/nd"
)

// ---- L17: how a schema is written makes no difference.

// plain are texts that break rules of every kind, without strings that hold blanks. N is a symbolic name.
var plain = []string{
	"type N { F_: Int \"d\" g(a: Int, \"d\" b: N): N } \"d\" enum N { a \"d\" B c }",
	"type N implements I & J @a(b: {c: \"d\"}) { f(first: [Int]!): XConnection x_: [[Int!]] } interface i { f: Int }",
	"type NConnection { edges: Int pageInfo: PageInfo! } enum XConnection { N } extend type q { f: Int } input n { A: Int = 1 b: Int }",
	"\"d\" scalar n scalar N union u = A | B extend enum E { n \"d\" N } directive @n(a: Int = 2) repeatable on FIELD | ENUM",
	"schema { query: N } extend schema @a \"d\" type N { \"d\" N(\"d\" n: Int): n } type Q { f(after: S, before: S): NConnection }",
}

// bare is the message without the place that it may begin with.
func bare(s string) string {
	i := 0
	for i < len(s) && (s[i] >= '0' && s[i] <= '9' || s[i] == ':') {
		i++
	}
	return s[i:]
}

func sameMoved(a, b []linter.LintErrorWithMetadata, line func(int) int) {
	nd.Assert(len(a) == len(b), "both ways have the same errors")
	used := make([]bool, len(b))
	for _, x := range a {
		found := false
		for i, y := range b {
			if !found && !used[i] && y.Rule == x.Rule && y.Line == line(x.Line) && bare(y.Err.Error()) == bare(x.Err.Error()) {
				found, used[i] = true, true
			}
		}
		nd.Assert(found, "both ways have the same errors")
	}
	nd.Obs("errors", len(a))
	if len(a) > 0 {
		nd.Reach("errors")
	} else {
		nd.Reach("none")
	}
}

// written lints the text with every token on a line of its own, and with something else between the lines.
func written(t string, rules []linter.LintRuleFunc) {
	t = strings.ReplaceAll(t, " ", "\n")
	type way struct {
		sep  string
		line func(int) int
	}
	same := func(n int) int { return n }
	twice := func(n int) int { return 2*n - 1 }
	first := func(n int) int { return 1 }
	w := []way{{"\n\n", twice}, {"\r\n", same}, {"\r", same}, {" \t,\n", same}, {"\n  ", same}, {"#C\n", same}, {" # a lint-disable type-desc\n", same},
		{"\n#C # lint-disable *\n", twice}, {"\n## lint-disable type-desc\n", twice}, {"\n# lintdisable type-desc, enum-caps\n", twice}, {"\n#type N { f: Int }\n", twice},
		{"\n# \"\"\" C\n", twice}, {"\n,,,\t,\n", twice}, {"\n# \u00e9\u4e16\U0001f600 lint-enable\n", twice}, {" ", first}, {",\t ", first},
		{"\n# not #lint-disable type-desc,field-desc,type-caps\n", twice}, {"\n##lint-disable type-desc\n", twice}, {"\n#lint-disablC type-desc\n", twice}, {"\n#lint-disable-all type-desc\n", twice},
		{"\n#\tlint-disable type-desc\n", twice}, {"\n#lint-disable\n", twice}, {"\n#lint-disable desc,type,type-des,type-descs,a type-desc\n", twice}, {" #C#lint-disable-line type-desc\n", same}}[nd.Choice("way", 24)]
	if strings.Contains(w.sep, "C") {
		w.sep = strings.ReplaceAll(w.sep, "C", nd.BytesOf("comment", 1, "#\"{},a!"))
	}
	u := strings.ReplaceAll(t, "\n", w.sep)
	if nd.Choice("first", 2) == 1 {
		u = "\ufeff" + u + w.sep
	}
	_, err := parser.ParseSchema(&ast.Source{Name: "x", Input: u})
	nd.Assert(err == nil, "the rewritten text parses")
	sameMoved(lint.Lint("a.graphql", t, rules), lint.Lint("a.graphql", u, rules), w.line)
}

// H_L17_texts: Bounds: 5 texts that break rules of every kind, with symbolic names of one byte, with each token on a line of its own against 24 other ways (one of them: all on one line) of separating them (blank lines, CR, CR LF, commas,
// blanks, comments with a symbolic byte that are no lint comments, some alike), with or without a byte order mark and an end; all rules.
func H_L17_texts() {
	written(gen.Text(plain[nd.Choice("text", len(plain))], nd.BytesOf("name", 1, "ABab_")), allRules())
}

// commented are texts with lint comments; ~ is a blank that stays.
var commented = []string{
	"type N { F_: Int~#lint-disable-line~field-camel f: Int g(a: Int): N~#lint-disable-line~args-desc,~field-desc } enum E { a~#lint-disable-line~Enum-Caps b }",
	"#lint-disable~type-desc,field-desc type N { f: Int F: Int #lint-enable~field-desc g: Int } #lint-enable~type-desc scalar x",
	"scalar a #lint-disable~type-caps scalar b #lint-enable~type-caps scalar c~#lint-disable-line~type-caps scalar N",
	"type N { f: XConnection~#lint-disable-line~relay-conn-args h: XConnection #lint-disable~relay-conn-args i(first: Int): XConnection } enum XConnection { V~#lint-enable~relay-conn-type W }",
}

// H_L17_commands: Bounds: 4 texts with up to 3 lint comments, with symbolic names of one byte, with each token on a line of its own against 7 other ways of separating them (blank lines, CR, CR LF, blanks, comments
// with a symbolic byte that are no lint comments), with or without a byte order mark; all rules.
func H_L17_commands() {
	t := strings.ReplaceAll(gen.Text(commented[nd.Choice("text", len(commented))], nd.BytesOf("name", 1, "ABab")), " ", "\n")
	k := nd.Choice("way", 7)
	sep := []string{"\n\n", "\r\n", "\r", "\n \t", "\r\r\r", "\n#C\n", "\r\n#C\r\n"}[k]
	line := func(n int) int {
		return []int{2*n - 1, n, n, n, 3*n - 2, 2*n - 1, 2*n - 1}[k]
	}
	if k > 4 {
		sep = strings.ReplaceAll(sep, "C", nd.BytesOf("comment", 1, "#\"{},a!"))
	}
	u := strings.ReplaceAll(t, "\n", sep)
	if nd.Choice("mark", 2) == 1 {
		u = "\ufeff" + u
	}
	t, u = strings.ReplaceAll(t, "~", " "), strings.ReplaceAll(u, "~", " ")
	_, err := parser.ParseSchema(&ast.Source{Name: "x", Input: u})
	nd.Assert(err == nil, "the rewritten text parses")
	sameMoved(lint.Lint("a.graphql", t, allRules()), lint.Lint("a.graphql", u, allRules()), line)
}

// H_L17_menu: Bounds: 31 declarations (one per grammar construct) and the next one, with symbolic names of one byte, ways as in H_L17_texts; all rules.
func H_L17_menu() {
	i := nd.Choice("declaration", len(gen.Menu))
	t := gen.Text(gen.Menu[i], nd.BytesOf("name", 1, "Aa_"))
	if t == "" {
		t = "scalar x"
	}
	if n := (i + 1) % len(gen.Menu); n > 0 {
		t += " " + gen.Text(gen.Menu[n], nd.BytesOf("name", 1, "Bb"))
	}
	written(t, allRules())
}

// H_L17_strings: Bounds: 5 texts with symbolic names of one byte, against the same with block strings, escapes or optional separators (12 ways that keep every token on its line); all rules.
func H_L17_strings() {
	t := gen.Text(plain[nd.Choice("text", len(plain))], nd.BytesOf("name", 1, "ABab_"))
	k := []int{3, 8, 9, 11, 12, 13, 14}[nd.Choice("way", 7)]
	u := gen.Rewrite(t, k, "")
	if k != 14 && nd.Choice("block", 2) == 1 {
		u = strings.ReplaceAll(u, "\"d\"", "\"\"\"d\"\"\"")
	}
	sameMoved(lint.Lint("a.graphql", t, allRules()), lint.Lint("a.graphql", u, allRules()), func(n int) int { return n })
}
