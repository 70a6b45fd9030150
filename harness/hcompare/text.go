package hcompare

import (
	"github.com/vektah/gqlparser/v2/ast"
	"github.com/vektah/gqlparser/v2/parser"

	"github.com/CrowdStrike/gql/zzverif/gen"
	"github.com/CrowdStrike/gql/zzverif/nd"
)

// parse is the document of the text. The texts are of the parser's grammar, so it accepts them.
func parseText(file, t string) (*ast.SchemaDocument, *ast.Source) {
	src := &ast.Source{Name: file, Input: t}
	d, err := parser.ParseSchema(src)
	if err != nil {
		nd.Obs("error", err.Error())
		nd.Assume(false)
	}
	return d, src
}

func textScn(old, nw string) *scn {
	s := newScn()
	s.o.doc, s.o.src = parseText("old.graphql", old)
	s.n.doc, s.n.src = parseText("new.graphql", nw)
	s.o.line, s.n.line = 9, 9
	return s
}

// H_C17_text_pairs: Bounds: every pair of 31 declarations (one per grammar construct), parsed by the real parser, with symbolic names of one capital letter.
func H_C17_text_pairs() {
	textScn(gen.Text(gen.Menu[nd.Choice("old", len(gen.Menu))], nd.BytesOf("oldname", 1, "ABCNUXYZ")), gen.Text(gen.Menu[nd.Choice("new", len(gen.Menu))], nd.BytesOf("newname", 1, "ABCNUXYZ"))).total()
}
