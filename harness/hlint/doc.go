// Package hlint holds the harnesses of the lint properties.
package hlint

import (
	"strings"

	"github.com/vektah/gqlparser/v2/ast"

	"github.com/CrowdStrike/gql/pkg/linter"
	"github.com/CrowdStrike/gql/zzverif/nd"
)

// builder makes documents of the form the parser produces, every element on a line of its own.
type builder struct {
	src  *ast.Source
	line int
	els  []el
	deep bool
}

// el is one element of the document and what the reference says about it.
type el struct {
	line, col int // col 0: only the line is required
	want      int
	names     []string
}

func newBuilder() *builder {
	return &builder{src: &ast.Source{Name: "f.graphql"}, deep: nd.Deep()}
}

func (b *builder) pos(col int) *ast.Position {
	b.line += 3
	return &ast.Position{Line: b.line, Column: col, Start: b.line * 80, End: b.line*80 + 3, Src: b.src}
}

func (b *builder) same(p *ast.Position, col int) *ast.Position {
	return &ast.Position{Line: p.Line, Column: col, Start: p.Start + col, End: p.End + col, Src: b.src}
}

func (b *builder) expect(p *ast.Position, exactCol, bad bool, names ...string) {
	c := 0
	if exactCol {
		c = p.Column
	}
	b.els = append(b.els, el{p.Line, c, nd.If(bad, 1, 0), names})
}

// expectN states how many errors lie on the line of p.
func (b *builder) expectN(p *ast.Position, n int) {
	b.els = append(b.els, el{p.Line, 0, n, nil})
}

var kinds = []ast.DefinitionKind{ast.Object, ast.Interface, ast.InputObject, ast.Enum, ast.Union, ast.Scalar}

// rule finds a rule by its documented name.
func rule(name string) linter.LintRuleFunc {
	for _, r := range linter.AllTheRules {
		if string(r.Name) == name {
			return r.RuleFunction
		}
	}
	nd.Fail("rule " + name + " is not available")
	return nil
}

// verify runs the rule and compares it with the reference.
func (b *builder) verify(name string, doc *ast.SchemaDocument) {
	errs := rule(name)(doc)
	want := 0
	for _, e := range b.els {
		want += e.want
	}
	nd.Assert(len(errs) == want, name+" reports the right number of errors")
	for _, e := range b.els {
		n := 0
		for _, x := range errs {
			if x.Line == e.line && (e.col == 0 || x.Column == e.col) {
				n++
				nd.Assert(string(x.Rule) == name, "the error carries its rule's name")
				nd.Assert(x.Column > 0, "the error has a column")
				nd.Assert(x.Err != nil, "the error has a message")
				for _, s := range e.names {
					nd.Assert(strings.Contains(x.Err.Error(), s), "the error names the element")
				}
			}
		}
		nd.Assert(n == e.want, name+" reports exactly the offending elements")
	}
	nd.Obs("errors", len(errs))
	for _, x := range errs {
		nd.Obs("at", x.Line*1000+x.Column)
		nd.Obs("msg", x.Err.Error())
	}
	if len(errs) == 0 {
		nd.Reach("clean")
	} else {
		nd.Reach("errors")
	}
}

func upto(name string, quick, deep int) int {
	if nd.Deep() {
		return nd.Choice(name, deep+1)
	}
	return nd.Choice(name, quick+1)
}

func desc(name string) string { return nd.Str(name, 3) }

func namedType(p *ast.Position, n string) *ast.Type { return &ast.Type{NamedType: n, Position: p} }

// anyType is a type reference of one of several wrappings.
func (b *builder) anyType(label string, p *ast.Position, named string) *ast.Type {
	nn := nd.Bool(label + ".nn")
	switch nd.Choice(label+".wrap", 3) {
	case 0:
		return &ast.Type{NamedType: named, NonNull: nn, Position: p}
	case 1:
		return &ast.Type{Elem: &ast.Type{NamedType: named, NonNull: nd.Bool(label + ".nn1"), Position: p}, NonNull: nn, Position: p}
	}
	in := &ast.Type{Elem: &ast.Type{NamedType: named, NonNull: nd.Bool(label + ".nn2"), Position: p}, NonNull: nd.Bool(label + ".nn1"), Position: p}
	return &ast.Type{Elem: in, NonNull: nn, Position: p}
}
