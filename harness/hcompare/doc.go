// Package hcompare holds the harnesses of the compare properties.
package hcompare

import (
	"strings"

	"github.com/vektah/gqlparser/v2/ast"

	"github.com/CrowdStrike/gql/pkg/compare"
	"github.com/CrowdStrike/gql/zzverif/nd"
)

// side makes one version of a schema, in the form the parser produces, every element on a line of its own.
type side struct {
	src  *ast.Source
	line int
	doc  *ast.SchemaDocument
}

func newSide(file string) *side {
	return &side{src: &ast.Source{Name: file}, doc: &ast.SchemaDocument{}}
}

func (s *side) pos(col int) *ast.Position {
	s.line += 2
	return &ast.Position{Line: s.line, Column: col, Start: s.line * 80, End: s.line*80 + 3, Src: s.src}
}

// def adds a definition or an extension.
func (s *side) def(ext bool, k ast.DefinitionKind, name string) *ast.Definition {
	d := &ast.Definition{Kind: k, Name: name, Position: s.pos(6)}
	if ext {
		s.doc.Extensions = append(s.doc.Extensions, d)
	} else {
		s.doc.Definitions = append(s.doc.Definitions, d)
	}
	return d
}

func (s *side) field(d *ast.Definition, name string, t *ast.Type) *ast.FieldDefinition {
	f := &ast.FieldDefinition{Name: name, Position: s.pos(3), Type: t}
	t.Position = f.Position
	d.Fields = append(d.Fields, f)
	return f
}

func (s *side) arg(name string, t *ast.Type) *ast.ArgumentDefinition {
	a := &ast.ArgumentDefinition{Name: name, Position: s.pos(5), Type: t}
	t.Position = a.Position
	return a
}

func (s *side) value(d *ast.Definition, name string) *ast.EnumValueDefinition {
	v := &ast.EnumValueDefinition{Name: name, Position: s.pos(3)}
	d.EnumValues = append(d.EnumValues, v)
	return v
}

func (s *side) directive(name string, args ...*ast.Argument) *ast.Directive {
	return &ast.Directive{Name: name, Position: s.pos(20), Arguments: args}
}

func (s *side) argument(name string, v *ast.Value) *ast.Argument {
	return &ast.Argument{Name: name, Value: v, Position: s.pos(30)}
}

func (s *side) dirDef(name string) *ast.DirectiveDefinition {
	d := &ast.DirectiveDefinition{Name: name, Position: s.pos(12), Locations: []ast.DirectiveLocation{ast.LocationField}}
	s.doc.Directives = append(s.doc.Directives, d)
	return d
}

func named(n string) *ast.Type { return &ast.Type{NamedType: n} }

func strVal(raw string) *ast.Value  { return &ast.Value{Kind: ast.StringValue, Raw: raw} }
func intVal(raw string) *ast.Value  { return &ast.Value{Kind: ast.IntValue, Raw: raw} }
func enumVal(raw string) *ast.Value { return &ast.Value{Kind: ast.EnumValue, Raw: raw} }

// distinct assumes the names differ, as GraphQL requires within one list.
func distinct(names []string) {
	for i := range names {
		for j := 0; j < i; j++ {
			nd.Assume(names[i] != names[j])
		}
	}
}

// newNames are n different names of up to max bytes.
func newNames(label string, n, max int) []string {
	out := make([]string, n)
	for i := range out {
		out[i] = nd.Name(label, max)
	}
	distinct(out)
	return out
}

// in tells whether the list has the name, without a case split.
func in(list []string, n string) bool {
	r := false
	for _, x := range list {
		r = nd.Or(r, x == n)
	}
	return r
}

// exp is one change the reference expects (want times).
type exp struct {
	typ   string
	crit  compare.Criticality
	path  string // "" : not compared
	names []string
	want  int
}

// scn is a pair of schemas with the reference's verdict about some types of changes.
type scn struct {
	o, n  *side
	scope []string
	exps  []exp
}

func newScn(scope ...string) *scn {
	return &scn{o: newSide("old.graphql"), n: newSide("new.graphql"), scope: scope}
}

func (s *scn) expect(typ string, crit compare.Criticality, path string, want bool, names ...string) {
	s.exps = append(s.exps, exp{typ, crit, path, names, nd.If(want, 1, 0)})
}

func (s *scn) inScope(t compare.ChangeType) bool {
	if len(s.scope) == 0 {
		return true
	}
	for _, x := range s.scope {
		if string(t) == x {
			return true
		}
	}
	return false
}

// check compares the changes found with the reference.
func (s *scn) check() {
	ch := compare.FindChangesInSchemas(s.o.doc, s.n.doc)
	total := 0
	for _, e := range s.exps {
		total += e.want
	}
	got := 0
	for _, c := range ch {
		if s.inScope(c.GetChangeType()) {
			got++
		}
	}
	nd.Obs("changes", got)
	nd.Assert(got == total, "the right number of changes is reported")
	for _, e := range s.exps {
		n := 0
		for _, c := range ch {
			if string(c.GetChangeType()) != e.typ || e.crit != anySeverity && c.GetChangeCriticalityLevel() != e.crit {
				continue
			}
			if e.path != "" && c.GetPath() != e.path {
				continue
			}
			ok := true
			for _, x := range e.names {
				ok = nd.And(ok, strings.Contains(c.GetMessage(), x))
			}
			n += nd.If(ok, 1, 0)
		}
		nd.Assert(n >= e.want, "each difference is reported with its severity, naming its subject")
	}
	for _, c := range ch {
		if s.inScope(c.GetChangeType()) {
			nd.Obs("type", string(c.GetChangeType()))
			nd.Obs("crit", int(c.GetChangeCriticalityLevel()))
			nd.Obs("msg", c.GetMessage())
		}
	}
	if got > 0 {
		nd.Reach("changes")
	} else {
		nd.Reach("none")
	}
}

// total is the robustness part (C17): every change is well formed, grouping and printing work.
func (s *scn) total() {
	ch := compare.FindChangesInSchemas(s.o.doc, s.n.doc)
	for _, c := range ch {
		nd.Assert(len(c.GetMessage()) > 0, "a change has a message")
		k := c.GetChangeCriticalityLevel()
		nd.Assert(k == compare.Breaking || k == compare.Dangerous || k == compare.NonBreaking, "a change has a known severity")
		p := c.GetPosition()
		nd.Assert(p != nil, "a change has a position")
		nd.Assert(p.Src == s.o.src || p.Src == s.n.src, "a change lies in one of the files")
		if p.Src == s.o.src {
			nd.Assert(p.Line >= 1 && p.Line <= s.o.line, "the line exists")
		} else {
			nd.Assert(p.Line >= 1 && p.Line <= s.n.line, "the line exists")
		}
	}
	if len(ch) > 0 {
		nd.Reach("changes")
	} else {
		nd.Reach("none")
	}
	g := compare.GroupChanges(ch)
	n := 0
	loc := true
	out := nd.Capture(func() {
		n += compare.ReportBreakingChanges(g[compare.Breaking], loc)
		n += compare.ReportDangerousChanges(g[compare.Dangerous], loc)
		n += compare.ReportNonBreakingChanges(g[compare.NonBreaking], loc)
	})
	nd.Assert(n == len(ch), "every change is reported")
	nd.Assert(n == 0 || len(out) > 0, "something is printed")
	nd.Obs("n", n)
}

func tier(quick, deep int) int {
	if nd.Deep() {
		return deep
	}
	return quick
}

// host picks where a type lives and what it is.
func host(kinds ...ast.DefinitionKind) (bool, ast.DefinitionKind) {
	ext := nd.Choice("ext", 2) == 1
	return ext, kinds[nd.Choice("kind", len(kinds))]
}

// asciiSet is every byte an ASCII string can have.
var asciiSet = func() string {
	b := make([]byte, 128)
	for i := range b {
		b[i] = byte(i)
	}
	return string(b)
}()

// ascii is a string of 0..max ASCII bytes.
func ascii(label string, max int) string { return nd.StrOf(label, 0, max, asciiSet) }
