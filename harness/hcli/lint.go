package hcli

import (
	"strings"

	"github.com/CrowdStrike/gql/cmd"
	lint "github.com/CrowdStrike/gql/cmd/linter"
	"github.com/CrowdStrike/gql/pkg/linter"
	"github.com/CrowdStrike/gql/zzverif/nd"
)

// lintTexts break no, one or several rules. N is a symbolic name.
var lintTexts = []string{
	"\"d\"\nscalar N\n",
	"scalar N\n",
	"type N {\n  F_(a: Int): Int\n}\nenum E { v N }\n",
	"scalar x\n#lint-disable type-desc\nscalar N\nenum E { N }\n",
	"",
}

// lintArgs are the rules as given on the command line, and the rules they select.
var lintArgs = []struct {
	args, rules []string
	bad         bool
}{
	{nil, nil, false},
	{[]string{"-r", "type-desc"}, []string{"type-desc"}, false},
	{[]string{"--rules=type-caps,enum-desc"}, []string{"type-caps", "enum-desc"}, false},
	{[]string{"-r", "Type-Desc, ENUM-CAPS", "-r", "args-desc"}, []string{"type-desc", "enum-caps", "args-desc"}, false},
	{[]string{"--rules", "relay-conn-type"}, []string{"relay-conn-type"}, false},
	{[]string{"-r", "type-desc,type-desc"}, []string{"type-desc", "type-desc"}, false},
	{[]string{"-r", "enum-desc", "--rules", "type-desc,Enum-Desc"}, []string{"enum-desc", "type-desc", "enum-desc"}, false},
	{[]string{"-r", "type-desc,type-des"}, nil, true},
	{[]string{"-rtype-descr"}, nil, true},
	{[]string{"-r", "x", "-r", "type-desc"}, nil, true},
}

// ruleFuncs are the functions of the named rules, or of all.
func ruleFuncs(names []string) (l []linter.LintRuleFunc) {
	if names == nil {
		for _, r := range linter.AllTheRules {
			l = append(l, r.RuleFunction)
		}
		return
	}
	for _, n := range names {
		for _, r := range linter.AllTheRules {
			if string(r.Name) == n {
				l = append(l, r.RuleFunction)
			}
		}
	}
	return
}

// errorLines are the lines that lint prints for a file.
func errorLines(file, text string, rules []linter.LintRuleFunc) (l []string) {
	for _, e := range lint.Lint(file, text, rules) {
		l = append(l, file+":"+nd.Itoa(e.Line)+":"+nd.Itoa(e.Column)+" "+e.Err.Error())
	}
	return
}

// lintPrinted states that the output of lint lists exactly the errors and the total, and the exit status tells whether there are some.
func lintPrinted(out string, want []string, code int, names ...string) {
	count := func(l []string, s string) int {
		n := 0
		for _, x := range l {
			if x == s {
				n++
			}
		}
		return n
	}
	ls := strings.Split(out, "\n")
	n := 0
	last := ""
	for _, l := range ls {
		for _, f := range names {
			if strings.HasPrefix(l, f+":") {
				n++
			}
		}
		if l != "" {
			last = l
		}
	}
	for _, w := range want {
		nd.Assert(count(ls, w) == count(want, w), "every error is printed once")
	}
	nd.Assert(n == len(want), "nothing else is printed as an error")
	nd.Assert(strings.HasSuffix(last, ": "+nd.Itoa(len(want))) == (len(want) > 0), "the total is the number of errors")
	if len(want) > 0 {
		nd.Assert(code == 1, "the exit status is 1 when there is an error")
		nd.Reach("errors")
	} else {
		nd.Assert(code == 0, "the exit status is 0 when there is no error")
		nd.Reach("none")
	}
}

// H_L14_run: Bounds: the real command line on the standard input, on one file, or on two files matched by a pattern (with a third that is not), 5 contents each with symbolic
// names of one letter; all rules or 6 selections.
func H_L14_run() {
	a := lintArgs[nd.Choice("rules", 7)]
	rules := ruleFuncs(a.rules)
	t := fill(lintTexts[nd.Choice("text", len(lintTexts))], nd.BytesOf("name", 1, "ABab"))
	args := append([]string{"lint"}, a.args...)
	switch nd.Choice("from", 3) {
	case 0:
		nd.Stdin(t)
		code, out := nd.Run(cmd.Execute, args...)
		name := "/dev/stdin"
		lintPrinted(out, errorLines(name, t, rules), code, name)
	case 1:
		nd.File("s.graphql", t)
		nd.File("t.graphql", "scalar T")
		code, out := nd.Run(cmd.Execute, append(args, "-f", "s.graphql")...)
		lintPrinted(out, errorLines("s.graphql", t, rules), code, "s.graphql", "t.graphql")
	case 2:
		u := lintTexts[nd.Choice("second", len(lintTexts))]
		nd.File("s.graphql", t)
		nd.File("t.graphql", fill(u, "U"))
		nd.File("t.txt", "scalar T")
		code, out := nd.Run(cmd.Execute, append([]string{"lint", "--filepath=*.graphql"}, a.args...)...)
		want := append(errorLines("s.graphql", t, rules), errorLines("t.graphql", fill(u, "U"), rules)...)
		lintPrinted(out, want, code, "s.graphql", "t.graphql", "t.txt")
	}
}

// H_L13_run: Bounds: the real command line with 10 selections of rules on a file that breaks every rule.
func H_L13_run() {
	a := lintArgs[nd.Choice("rules", len(lintArgs))]
	t := fill("type a_N { F_: Int }\ntype Q { f(x: Int): NConnection }\ntype NConnection { x: Int }\nenum E { v }\n", nd.BytesOf("name", 1, "ABab"))
	nd.File("s.graphql", t)
	code, out := nd.Run(cmd.Execute, append([]string{"lint", "-f", "s.graphql"}, a.args...)...)
	nd.Obs("code", code)
	if a.bad {
		nd.Assert(code == 1, "an unknown rule makes the command fail")
		nd.Assert(!strings.Contains(out, "\ns.graphql:") && !strings.HasPrefix(out, "s.graphql:"), "no rule is applied when one is unknown")
		nd.Assert(!strings.Contains(out, "no lint errors"), "no success is reported when a rule is unknown")
		nd.Reach("rejected")
		return
	}
	lintPrinted(out, errorLines("s.graphql", t, ruleFuncs(a.rules)), code, "s.graphql")
}
