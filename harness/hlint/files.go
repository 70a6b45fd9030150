package hlint

import (
	"strings"

	lint "github.com/CrowdStrike/gql/cmd/linter"
	"github.com/CrowdStrike/gql/pkg/linter"
	"github.com/CrowdStrike/gql/zzverif/nd"
)

// ---- L14

// fileTexts are contents of a file with no, one or several errors. N is a symbolic name.
var fileTexts = []string{
	"",
	"# nothing\n",
	"\"d\" enum N { \"v\" A }\n",
	"\"d\" scalar N\n#lint-disable type-desc, type-caps\nscalar x\n",
	"scalar N\n",
	"scalar N scalar Y\nscalar Z",
	"type N {\n  f: Int F_: N f: Int\n}\n",
	"enum E {\n  N\n  n #lint-disable-line enum-desc, enum-caps\n  N\n}\ntype NConnection { edges: N }",
	"\r\n\r\nscalar N\r\n",
	"scalar N scalar B scalar C scalar D\nscalar E scalar F scalar G scalar H scalar I\n\nscalar J scalar K scalar L scalar M\n#lint-disable type-desc\nscalar O",
}

func named(t, name string) string { return strings.ReplaceAll(t, "N", name) }

// files are the file names, ambiguous on purpose.
var files = []string{"a.graphql", "a.graphql:1", "sub/a.graphql", "b c%d.graphql"}

// printed states that the output lists exactly the errors, and the total.
func printed(out string, want []string, code int) {
	lines := strings.Split(out, "\n")
	count := func(l []string, s string) int {
		n := 0
		for _, x := range l {
			if x == s {
				n++
			}
		}
		return n
	}
	for _, w := range want {
		nd.Assert(count(lines, w) == count(want, w), "every error is printed once")
	}
	n := 0
	last := ""
	for _, l := range lines {
		if strings.Contains(l, "graphql") || strings.Contains(l, "stdin") {
			n++
		}
		if l != "" {
			last = l
		}
	}
	nd.Assert(n == len(want), "nothing else is printed as an error")
	nd.Assert((code == 0) == (len(want) == 0), "the exit status tells whether there is an error")
	nd.Assert(code == 0 || code == 1, "the exit status is 0 or 1")
	nd.Assert(strings.HasSuffix(last, ": "+nd.Itoa(len(want))) == (len(want) > 0), "the total is the number of errors")
	if len(want) > 1 {
		nd.Reach("several")
	}
	if len(want) == 0 {
		nd.Reach("none")
	}
}

func lines(file string, errs []linter.LintErrorWithMetadata) (l []string) {
	for _, e := range errs {
		l = append(l, file+":"+nd.Itoa(e.Line)+":"+nd.Itoa(e.Column)+" "+e.Err.Error())
	}
	return
}

// H_L14_files: Bounds: 0..2 files (thorough 3) of 4 names with any of 10 contents (the second of 5, the third of 3), symbolic names of one letter, read in any order.
func H_L14_files() {
	n := nd.Choice("files", tier(3, 4))
	m := map[string][]byte{}
	var want []string
	rules := allRules()
	seconds := []int{0, 3, 4, 6, 7}
	for i := 0; i < n; i++ {
		var t string
		switch i {
		case 0:
			t = fileTexts[nd.Choice("text", len(fileTexts))]
		case 1:
			t = fileTexts[seconds[nd.Choice("text", 5)]]
		default:
			t = fileTexts[[]int{2, 5, 7}[nd.Choice("text", 3)]]
		}
		t = named(t, nd.BytesOf("name", 1, "ABab"))
		f := files[i]
		if n == 1 {
			f = files[nd.Choice("file", len(files))]
		}
		m[f] = []byte(t)
		want = append(want, lines(f, lint.Lint(f, t, rules))...)
	}
	nd.MapOrders(true)
	code := 0
	out := nd.Capture(func() { code = lint.FindLintErrors(m, rules) })
	nd.MapOrders(false)
	nd.Obs("code", code)
	nd.Obs("errors", len(want))
	printed(out, want, code)
}

// H_L14_many: Bounds: 2..5 files (thorough 6), each with no, one or two errors, one rule or several with repetitions, read in any order.
func H_L14_many() {
	names := []string{"f1.graphql", "f2.graphql", "f3.graphql", "f4.graphql", "f5.graphql", "f6.graphql"}
	n := 2 + nd.Choice("files", tier(3, 5))
	m := map[string][]byte{}
	var want []string
	rules := [][]linter.LintRuleFunc{{rule("type-desc")}, {rule("type-desc"), rule("type-desc")}, {rule("type-caps"), rule("type-desc"), rule("enum-desc"), rule("type-desc")}}[nd.Choice("rules", 3)]
	for i := 0; i < n; i++ {
		t := []string{"\"d\" scalar A", "scalar A", "scalar A scalar A"}[nd.Choice("text", 3)]
		m[names[i]] = []byte(t)
		want = append(want, lines(names[i], lint.Lint(names[i], t, rules))...)
	}
	nd.MapOrders(n < 4)
	code := 0
	out := nd.Capture(func() { code = lint.FindLintErrors(m, rules) })
	nd.MapOrders(false)
	printed(out, want, code)
}

// ---- L16

// homes have names that are alike.
var homes = []string{"a.graphql", "sub/a.graphql", "A.graphql"}

// H_L16_alone: Bounds: 2 files (thorough 3) of any of 10 contents with symbolic names of one letter, linted alone, twice in a row, in either order, and together; all rules or one.
func H_L16_alone() {
	rules := allRules()
	if nd.Choice("rules", 2) == 1 {
		rules = []linter.LintRuleFunc{rule("type-desc")}
	}
	n := tier(2, 3)
	m := map[string][]byte{}
	var texts []string
	var alone [][]string
	want := 0
	for i := 0; i < n; i++ {
		t := named(fileTexts[nd.Choice("text", len(fileTexts))], nd.BytesOf("name", 1, "ABab"))
		texts = append(texts, t)
		m[homes[i]] = []byte(t)
		alone = append(alone, lines(homes[i], lint.Lint(homes[i], t, rules)))
		want += len(alone[i])
	}
	again := func(i int) {
		l := lines(homes[i], lint.Lint(homes[i], texts[i], rules))
		nd.Assert(len(l) == len(alone[i]), "linting again finds the same errors")
		for k := range l {
			nd.Assert(l[k] == alone[i][k], "linting again finds the same errors")
		}
	}
	again(n - 1)
	code := 0
	out := nd.Capture(func() { code = lint.FindLintErrors(m, rules) })
	for _, l := range alone {
		for _, x := range l {
			nd.Assert(strings.Contains("\n"+out, "\n"+x+"\n"), "a file has the errors it has alone")
		}
	}
	nd.Assert((code != 0) == (want > 0), "the exit status is that of the files on their own")
	nd.Assert(strings.Contains(out, ": "+nd.Itoa(want)+"\n") == (want > 0), "the total is the sum of those of the files on their own")
	for i := n - 1; i >= 0; i-- {
		again(i)
	}
	nd.Obs("errors", want)
	if want > 0 {
		nd.Reach("errors")
	} else {
		nd.Reach("none")
	}
}

// H_L16_order: Bounds: 1..3 files of 7 contents with symbolic names of one letter, all rules, two runs, the second with any order of every map.
func H_L16_order() {
	n := 1 + nd.Choice("files", 3)
	m := map[string][]byte{}
	for i := 0; i < n; i++ {
		m[homes[i]] = []byte(named(fileTexts[[]int{4, 2, 6, 3, 7, 0, 5}[nd.Choice("text", []int{7, 5, 2}[i])]], nd.BytesOf("name", 1, "ABab")))
	}
	rules := allRules()
	c1, c2 := 0, 0
	o1 := nd.Capture(func() { c1 = lint.FindLintErrors(m, rules) })
	nd.MapOrders(true)
	o2 := nd.Capture(func() { c2 = lint.FindLintErrors(m, rules) })
	nd.MapOrders(false)
	nd.Assert(c1 == c2, "both runs exit with the same status")
	nd.Assert(o1 == o2, "both runs print the same")
	nd.Reach("runs")
}

// alike begin and end in the same way, have the same length or number of lines, but not the same errors.
var alike = []string{
	"enum N {\n  v #lint-disable-line enum-caps\n}\n",
	"enum N {\n  v #lint-disable-line enum-desc\n}\n",
	"enum N {\n  v #lint-enabled-line enum-cap\n}\n",
	"enum N {\n\n  v #lint-disable-line enum-caps\n}\n",
	"enum N {\n  #lint-disable enum-caps\n  v\n  #lint-enable\n}\n",
	"enum N {\n  #lint-disable\n  v\n}\n",
	"enum N {\n  V #lint-disable-line enum-caps\n}\n",
	"type N {\n  v: Int #lint-disable-line enum-caps\n}\n",
	"type N {\n  v: Int v: Int\n}\n",
	"\"d\"\ntype N {\n v: Int\n}\n",
}

// H_L16_alike: Bounds: 2 files (thorough 3) of alike names and of any of 10 contents of alike beginning, end, length or lint comments with symbolic names of one letter, linted alone and together, in
// either order; all rules or one.
func H_L16_alike() {
	rules := allRules()
	if nd.Choice("rules", 2) == 1 {
		rules = []linter.LintRuleFunc{rule("enum-caps")}
	}
	n := tier(2, 3)
	name := nd.BytesOf("name", 1, "ABab")
	m := map[string][]byte{}
	var texts []string
	for i := 0; i < n; i++ {
		texts = append(texts, named(alike[nd.Choice("text", len(alike))], name))
		m[homes[i]] = []byte(texts[i])
	}
	var alone [][]string
	for i := range texts {
		alone = append(alone, lines(homes[i], lint.Lint(homes[i], texts[i], rules)))
	}
	// each of them as the only or the first one that is linted, in a name of its own
	want := 0
	for i := range texts {
		own := lines("other", lint.Lint("other"+nd.Itoa(i), texts[i], rules))
		nd.Assert(len(own) == len(alone[i]), "a file has the errors it has alone")
		for k := range own {
			nd.Assert(homes[i]+own[k][len("other"):] == alone[i][k], "a file has the errors it has alone")
		}
		want += len(own)
	}
	code := 0
	out := nd.Capture(func() { code = lint.FindLintErrors(m, rules) })
	for _, l := range alone {
		for _, x := range l {
			nd.Assert(strings.Contains("\n"+out, "\n"+x+"\n"), "a file has the errors it has alone")
		}
	}
	nd.Assert((code != 0) == (want > 0), "the exit status is that of the files on their own")
	nd.Assert(strings.Contains(out, ": "+nd.Itoa(want)+"\n") == (want > 0), "the total is the sum of those of the files on their own")
	for i := n - 1; i >= 0; i-- {
		l := lines(homes[i], lint.Lint(homes[i], texts[i], rules))
		nd.Assert(len(l) == len(alone[i]), "linting again finds the same errors")
		for k := range l {
			nd.Assert(l[k] == alone[i][k], "linting again finds the same errors")
		}
	}
	if want > 0 {
		nd.Reach("errors")
	} else {
		nd.Reach("none")
	}
}
