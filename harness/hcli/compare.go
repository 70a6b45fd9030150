// Package hcli holds the harnesses of the command line properties.
package hcli

import (
	"strings"

	"github.com/vektah/gqlparser/v2/ast"
	"github.com/vektah/gqlparser/v2/parser"

	"github.com/CrowdStrike/gql/cmd"
	"github.com/CrowdStrike/gql/pkg/compare"
	"github.com/CrowdStrike/gql/zzverif/nd"
)

// versions are schemas with a change of every severity between most pairs. N is a symbolic name.
var versions = []string{
	"type Query {\n f: N\n}\n",
	"type Query {\n f: N\n g: Int\n}\n",
	"type Query {\n f(a: Int): N!\n}\nenum E {\n A\n N\n}\n",
	"type Query {\n f: N\n}\nenum E {\n A\n}\ntype Z",
	"\"desc\"\ntype Query @x {\n f: N\n}\nextend type Query {\n h: N\n}\nenum E {\n A\n}\n",
	"",
}

func fill(t, name string) string { return strings.ReplaceAll(t, "N", name) }

func parse(file, t string) *ast.SchemaDocument {
	d, err := parser.ParseSchema(&ast.Source{Name: file, Input: t})
	if err != nil {
		nd.Assume(false)
	}
	return d
}

func lineOf(out, tail string) int {
	n := 0
	for _, l := range strings.Split(out, "\n") {
		if strings.HasSuffix(l, tail) {
			n++
		}
	}
	return n
}

// H_C19_run: Bounds: the real command line on every pair of 6 schema versions with symbolic names of one capital letter, every combination of -b and -e (short or
// long form), both orders of the flags.
func H_C19_run() {
	on, nn := nd.BytesOf("oldname", 1, "ABX"), nd.BytesOf("newname", 1, "ABX")
	ot, nt := fill(versions[nd.Choice("old", len(versions))], on), fill(versions[nd.Choice("new", len(versions))], nn)
	nd.File("old.graphql", ot)
	nd.File("new.graphql", nt)
	args := []string{"compare", "-o", "old.graphql", "-n", "new.graphql"}
	if nd.Choice("long", 2) == 1 {
		args = []string{"compare", "--newversion=new.graphql", "--oldversion=old.graphql"}
	}
	b, e := nd.Choice("b", 2) == 1, nd.Choice("e", 2) == 1
	if b {
		args = append(args, []string{"-b", "--breaking-change-only"}[len(args)%2])
	}
	if e {
		args = append(args, []string{"-e", "--exclude-print-filepath"}[len(args)%2])
	}
	code, out := nd.Run(cmd.Execute, args...)
	ch := compare.FindChangesInSchemas(parse("old.graphql", ot), parse("new.graphql", nt))
	breaking := 0
	for _, c := range ch {
		if c.GetChangeCriticalityLevel() == compare.Breaking {
			breaking++
		}
	}
	nd.Obs("code", code)
	nd.Assert(code == 0 || code == 1, "the exit status is 0 or 1")
	nd.Assert((code == 1) == (breaking > 0), "the exit status tells whether there is a breaking change")
	shown := 0
	for _, c := range ch {
		tail := "  " + c.GetMessage()
		if !e {
			tail = "  " + c.GetPosition().Src.Name + ":" + nd.Itoa(c.GetPosition().Line) + " " + c.GetMessage()
		}
		want := 0
		for _, x := range ch {
			if x.GetMessage() == c.GetMessage() && (e || x.GetPosition().Line == c.GetPosition().Line && x.GetPosition().Src.Name == c.GetPosition().Src.Name) {
				want++
			}
		}
		if b && c.GetChangeCriticalityLevel() != compare.Breaking {
			want = 0
		}
		if want > 0 {
			shown++
		}
		nd.Assert(lineOf(out, tail) == want, "a change is printed exactly when it should be")
	}
	lines := 0
	for _, l := range strings.Split(out, "\n") {
		if strings.Contains(l, "  ") {
			lines++
		}
	}
	nd.Assert(lines == shown, "nothing else is printed as a change")
	n := strings.Count(out, "Breaking changes in schema: ")
	nd.Assert((n == 1) == (breaking > 0) && n <= 1, "the count of breaking changes is printed if there are some")
	if breaking > 0 {
		nd.Assert(strings.Contains(out, "Breaking changes in schema: "+nd.Itoa(breaking)+"\n"), "the count is the number of breaking changes")
		nd.Reach("breaking")
	} else {
		nd.Reach("fine")
	}
}
