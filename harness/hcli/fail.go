package hcli

import (
	"strings"

	"github.com/vektah/gqlparser/v2/ast"
	"github.com/vektah/gqlparser/v2/parser"

	"github.com/CrowdStrike/gql/cmd"
	"github.com/CrowdStrike/gql/zzverif/nd"
)

var unparseable = []string{"type A {", "type A { f: Int } }", "enum E { }", "\"d", "# c\ntype A { f }", "scalar %"}

// input makes a file, or a set of files, that cannot be read or parsed, and gives the pattern for it.
func badInput(p string) string {
	switch nd.Choice(p+" how", 7) {
	case 0:
		return p + "-missing.graphql"
	case 1:
		return p + "-missing-*.graphql"
	case 2:
		nd.BadFile(p+".graphql", 1)
		return p + ".graphql"
	case 3:
		nd.BadFile(p+"b.graphql", 2)
		nd.File(p+"a.graphql", "type A")
		return p + "?.graphql"
	case 4:
		nd.File(p+".graphql", unparseable[nd.Choice(p+" text", len(unparseable))])
		return p + ".graphql"
	case 5:
		i := nd.Choice(p+" place", 2)
		nd.File(p+"1.graphql", []string{"\"d\" scalar A", unparseable[0]}[i])
		nd.File(p+"2.graphql", []string{unparseable[4], "\"d\" scalar A"}[i])
		return p + "*.graphql"
	}
	nd.File(p+".graphql", "type A")
	return "[" + p + ".graphql"
}

// failed states that the command failed visibly.
func failed(code int, out string) {
	nd.Obs("code", code)
	nd.Assert(code == 1, "the command fails")
	for _, s := range []string{"Schema has no lint errors", "No changes found", "No breaking changes found"} {
		nd.Assert(!strings.Contains(out, s), "no success is reported")
	}
	nd.Assert(strings.TrimSpace(out) != "", "the failure is reported")
	nd.Reach("failed")
}

// failedCompare states that the comparison failed visibly.
func failedCompare(code int, out string) {
	failed(code, out)
	for _, s := range []string{"was removed", "was added", "changes in schema"} {
		nd.Assert(!strings.Contains(out, s), "no changes are reported")
	}
}

// H_L15_files: Bounds: lint of a missing, unreadable or unparseable file, alone or among readable ones (7 ways, 6 texts), with all rules or one.
func H_L15_files() {
	args := []string{"lint", "-f", badInput("s")}
	if nd.Choice("rules", 2) == 1 {
		args = append(args, "-r", "type-caps")
	}
	nd.MapOrders(true)
	code, out := nd.Run(cmd.Execute, args...)
	nd.MapOrders(false)
	failed(code, out)
}

// H_L15_stdin: Bounds: lint of 6 texts that do not parse from the standard input.
func H_L15_stdin() {
	nd.Stdin(unparseable[nd.Choice("text", len(unparseable))])
	code, out := nd.Run(cmd.Execute, "lint")
	failed(code, out)
}

// H_L15_usage: Bounds: 2 wrong command lines (those for which the command prints its usage text need templates, which are not encoded).
func H_L15_usage() {
	nd.File("s.graphql", "\"d\" scalar A")
	code, out := nd.Run(cmd.Execute, [][]string{{"lintt"}, {"lintt", "-f", "s.graphql"}}[nd.Choice("args", 2)]...)
	failed(code, out)
}

// H_C21_files: Bounds: compare with one version missing, unreadable or unparseable (7 ways, 6 texts), the other one fine (one file or two) or equally bad; -b and -e or not.
func H_C21_files() {
	o, n := "", ""
	good := "good.graphql"
	nd.File(good, "type A { f: Int }")
	if nd.Choice("good files", 2) == 1 {
		good = "good*.graphql"
		nd.File("good2.graphql", "extend type A { g: Int }")
	}
	switch nd.Choice("which", 3) {
	case 0:
		o, n = badInput("o"), good
	case 1:
		o, n = good, badInput("n")
	case 2:
		o, n = "bad1.graphql", "bad2.graphql"
		nd.File(o, unparseable[0])
		nd.File(n, unparseable[0])
	}
	args := []string{"compare", "-o", o, "-n", n}
	if nd.Choice("flags", 2) == 1 {
		args = append(args, "-b", "-e")
	}
	code, out := nd.Run(cmd.Execute, args...)
	failedCompare(code, out)
}

// H_C21_usage: Bounds: 5 wrong command lines (those for which the command prints its usage text need templates, which are not encoded).
func H_C21_usage() {
	nd.File("s.graphql", "type A")
	nd.File("t.graphql", "type A { f: Int }")
	code, out := nd.Run(cmd.Execute, [][]string{{"compare"}, {"compare", "-o", "s.graphql"}, {"compare", "-n", "s.graphql"}, {"compare", "-o", "s.graphql", "-n", "s.graphql"},
		{"compare", "-o", "", "-n", "t.graphql"}}[nd.Choice("args", 5)]...)
	failedCompare(code, out)
}

// rejected is a text that the parser rejects: up to 2 (thorough 3) arbitrary bytes alone or after, before or inside a good text.
func rejected() string {
	n := 2
	if nd.Deep() {
		n = 3
	}
	t := nd.Bytes("junk", nd.Choice("junk length", n+1))
	switch nd.Choice("around", 5) {
	case 1:
		t = "\"d\" scalar A\n" + t
	case 2:
		t += "\n\"d\" scalar A"
	case 3:
		t = "\"d\" enum E { \"v\" A " + t + " }"
	case 4:
		t = "\ufeff# lint\n\n" + t
	}
	if _, err := parser.ParseSchema(&ast.Source{Name: "x", Input: t}); err == nil {
		nd.Assume(false)
	}
	return t
}

// H_L15_any: Bounds: lint of any text of up to 2 (thorough 3) arbitrary bytes, alone or within 4 good texts, that does not parse, from the standard input, from a file, or from
// the first or last of three files.
func H_L15_any() {
	t := rejected()
	args := []string{"lint"}
	k := nd.Choice("from", 4)
	if k == 0 {
		nd.Stdin(t)
	} else {
		args = append(args, "-f", "*.graphql")
		nd.File("b.graphql", t)
		if k > 1 {
			nd.File("c.graphql", "\"d\" scalar A")
			nd.File([]string{"", "", "a.graphql", "d.graphql"}[k], "\"d\" scalar A")
		}
	}
	code, out := nd.Run(cmd.Execute, args...)
	failedCompare(code, out)
}

// H_C21_any: Bounds: compare with either version, or one of the two files of it, any text of up to 2 (thorough 3) arbitrary bytes, alone or within 4 good texts, that does not parse.
func H_C21_any() {
	t := rejected()
	o, n := "old.graphql", "new.graphql"
	if nd.Choice("which", 2) == 1 {
		o, n = n, o
	}
	nd.File(o, t)
	nd.File(n, "\"d\" scalar A")
	pat := o
	if nd.Choice("files", 2) == 1 {
		nd.File(o[:3]+".x.graphql", "scalar B")
		pat = o[:3] + "*.graphql"
	}
	args := []string{"compare", "-o", pat, "-n", n}
	if o[0] == 'n' {
		args = []string{"compare", "-o", n, "-n", pat}
	}
	code, out := nd.Run(cmd.Execute, args...)
	failedCompare(code, out)
}
