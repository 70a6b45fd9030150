package hlint

import (
	"strings"

	"github.com/vektah/gqlparser/v2/ast"

	"github.com/CrowdStrike/gql/zzverif/nd"
)

// ---- Parsed documents that hold everything, with all else on one line, spread over lines, or many members.

const busyText = `schema { query: Query } directive @d(first: Int, a_b: Int) on OBJECT | ENUM_VALUE
"t" scalar Date @d  "t" union Uni = A | BConnection  "t" type Query { "f" userConn("a" first: Int "a" after: String): UserConnection "f" b(
 "a" x: Int, "a" y: [Int!]! = [1]): [Int!]! "f" c: Int @d }
"t" interface Node implements Other @d { "f" id("a" last: Int, "a" before: String, "a" z: E): [UserConnection!]! "f" d("a" id: Int): Int }
"t" type UserConnection { "f" edges: [UserEdge] "f" pageInfo: PageInfo! "f" total(
    "a" first: Int
    "a" after: Int
    "a" last: Int
    "a" before: Int): BConnection }
"t" type BConnection {
  "f" pageInfo: PageInfo!
  "f" edges: [UserEdge!]! }
extend type Query @d { "f" more(
   "a" x: Int): Int "f" conn: UserConnection }  extend interface Node { "f" q("a" id: Int
  "a" r: Int): Int }
"t" input In { "f" name: String = "x" "f" id: Int! }  extend input In { "f" more: In } extend input In { "f" other: [In] }
"t" enum Color { "v" RED "v" GREEN @d
   "v" BLUE } "t" enum SomeConnection { "v" RED }
extend enum Color { "v" RED2 "v" BLACK } extend scalar Date @d extend union Uni = Query
"t" interface IConnection { "f" edges: Int "f" pageInfo: Int } "t" type CConnection { "f" edges: [Int] "f" pageInfo: PageInfo! }
extend type CConnection { "f" edges: Int } extend enum Color { "v" PINK }
`

// flat is the same on one line.
func flat(s string) string { return strings.ReplaceAll(s, "\n", " ") }

// spread puts every element on a line of its own.
func spread(s string) string {
	s = strings.ReplaceAll(flat(s), " \"", "\n \"")
	s = strings.ReplaceAll(s, "extend", "\nextend")
	return strings.ReplaceAll(s, "(", "(\n")
}

// long has many members in a few types.
func long() string {
	t := ""
	for i := 0; i < 12; i++ {
		x := string([]byte{byte('a' + i)})
		t += "\"t\" type T" + x + " { \"f\" name" + x + "(\"a\" first: Int \"a\" after: Int): XConnection } extend type Tz { \"f\" name" + x + "(\"a\" v" + x + ": Int): Int } \"t\" enum E" + x + " { \"v\" V" + strings.ToUpper(x) + " }\n" +
			"\"t\" type " + strings.ToUpper(x) + "Connection { \"f\" edges: [Int] \"f\" pageInfo: PageInfo! }"
	}
	args, vals, fields := "", "", ""
	for i := 0; i < 20; i++ {
		x := string([]byte{byte('a' + i)})
		args += "\"a\" g" + x + ": Int "
		vals += "\"v\" W" + strings.ToUpper(x) + " "
		fields += "\"f\" h" + x + "(\"a\" first: Int \"a\" after: Int): YConnection "
	}
	return t + "\"t\" type Many { \"f\" m(" + args + "): Int }\n\"t\" enum Vals { " + vals + "} \"t\" interface Fs { " + fields + "}"
}

// spot is something a rule looks at, with the ways to set it.
type spot struct {
	bad func()
	sym func()
}

func alldefs(doc *ast.SchemaDocument, ext bool, f func(d *ast.Definition)) {
	for _, d := range doc.Definitions {
		f(d)
	}
	if ext {
		for _, d := range doc.Extensions {
			f(d)
		}
	}
}

func descSpot(s *string) spot {
	return spot{func() { *s = "" }, func() { *s = desc("desc") }}
}

func nameSpot(s *string, bad string, max int) spot {
	return spot{func() { *s = bad }, func() { *s = nd.Name("name", max) }}
}

func typeSpot(t *ast.Type, max int) spot {
	for t.Elem != nil {
		t = t.Elem
	}
	return spot{func() { t.NonNull = !t.NonNull }, func() {
		t.NamedType, t.NonNull = nd.Name("type", max), nd.Bool("nonnull")
	}}
}

func listSpot(pt **ast.Type) spot {
	t := *pt
	return spot{func() {}, func() {
		if t.Elem == nil {
			*pt = &ast.Type{Elem: t, NonNull: nd.Bool("list"), Position: t.Position}
		} else {
			t.NamedType, t.Elem = "Int", nil
		}
	}}
}

func spots(rule string, doc *ast.SchemaDocument) (l []spot) {
	composite := func(d *ast.Definition) bool { return d.Kind == ast.Object || d.Kind == ast.Interface }
	switch rule {
	case "type-desc":
		alldefs(doc, false, func(d *ast.Definition) { l = append(l, descSpot(&d.Description)) })
	case "type-caps":
		alldefs(doc, true, func(d *ast.Definition) { l = append(l, nameSpot(&d.Name, "low", 4)) })
	case "field-desc", "field-camel":
		alldefs(doc, true, func(d *ast.Definition) {
			for _, f := range d.Fields {
				if rule == "field-desc" {
					l = append(l, descSpot(&f.Description))
				} else {
					l = append(l, nameSpot(&f.Name, "Upper", 2))
				}
			}
		})
	case "args-desc":
		alldefs(doc, true, func(d *ast.Definition) {
			for _, f := range d.Fields {
				for _, a := range f.Arguments {
					if composite(d) {
						l = append(l, descSpot(&a.Description))
					}
				}
			}
		})
	case "enum-desc", "enum-caps":
		alldefs(doc, true, func(d *ast.Definition) {
			for _, v := range d.EnumValues {
				if rule == "enum-desc" {
					l = append(l, descSpot(&v.Description))
				} else {
					l = append(l, nameSpot(&v.Name, "LOwER", 3))
				}
			}
		})
	case "relay-conn-type":
		alldefs(doc, false, func(d *ast.Definition) {
			if !strings.HasSuffix(d.Name, "Connection") {
				l = append(l, spot{func() { d.Name += "Connection" }, func() { d.Name = nd.Name("name", 12) }})
				return
			}
			l = append(l, spot{func() {}, func() { d.Name = nd.Name("name", 12) }})
			for _, f := range d.Fields {
				if f.Name == "total" {
					continue
				}
				l = append(l, nameSpot(&f.Name, f.Name+"2", 8), listSpot(&f.Type))
				if f.Name == "pageInfo" {
					l = append(l, typeSpot(f.Type, 8))
				}
			}
		})
	case "relay-conn-args":
		alldefs(doc, false, func(d *ast.Definition) {
			for _, f := range d.Fields {
				for _, a := range f.Arguments {
					if a.Name == "first" || a.Name == "last" || a.Name == "after" || a.Name == "before" {
						l = append(l, nameSpot(&a.Name, a.Name+"2", 6), typeSpot(a.Type, 3), listSpot(&a.Type))
					}
				}
				l = append(l, typeSpot(f.Type, 11))
			}
		})
	}
	return
}

// refer states what the rule has to report.
func (b *builder) refer(rule string, doc *ast.SchemaDocument) {
	composite := func(d *ast.Definition) bool { return d.Kind == ast.Object || d.Kind == ast.Interface }
	at := func(p *ast.Position, n int, names ...string) {
		b.els = append(b.els, el{p.Line, p.Column, n, names})
	}
	switch rule {
	case "type-desc":
		alldefs(doc, false, func(d *ast.Definition) { at(d.Position, nd.If(d.Description == "", 1, 0), d.Name) })
	case "type-caps":
		alldefs(doc, true, func(d *ast.Definition) {
			at(d.Position, nd.If(nd.And(nd.At(d.Name, 0) >= 'a', nd.At(d.Name, 0) <= 'z'), 1, 0), d.Name)
		})
	case "field-desc", "field-camel":
		alldefs(doc, true, func(d *ast.Definition) {
			for _, f := range d.Fields {
				bad := f.Description == ""
				if rule == "field-camel" {
					bad = !isCamel(f.Name, 8)
				}
				at(f.Type.Position, nd.If(bad, 1, 0), d.Name, f.Name)
			}
		})
	case "args-desc":
		alldefs(doc, true, func(d *ast.Definition) {
			for _, f := range d.Fields {
				for _, a := range f.Arguments {
					if composite(d) {
						at(a.Position, nd.If(a.Description == "", 1, 0), d.Name, f.Name, a.Name)
					}
				}
			}
		})
	case "enum-desc", "enum-caps":
		alldefs(doc, true, func(d *ast.Definition) {
			for _, v := range d.EnumValues {
				bad := v.Description == ""
				if rule == "enum-caps" {
					bad = hasLower(v.Name, 5)
				}
				at(v.Position, nd.If(bad, 1, 0), d.Name, v.Name)
			}
		})
	case "relay-conn-type":
		alldefs(doc, false, func(d *ast.Definition) {
			conn := strings.HasSuffix(d.Name, "Connection")
			if d.Kind != ast.Object {
				at(d.Position, nd.If(conn, 1, 0))
				return
			}
			edges, page := false, false
			for _, f := range d.Fields {
				isE, isP := f.Name == "edges", f.Name == "pageInfo"
				edges, page = nd.Or(edges, isE), nd.Or(page, isP)
				t := f.Type
				badP := nd.Or(t.Elem != nil, nd.Or(t.NamedType != "PageInfo", !t.NonNull))
				at(t.Position, nd.If(nd.And(conn, nd.Or(nd.And(isE, t.Elem == nil), nd.And(isP, badP))), 1, 0))
			}
			at(d.Position, nd.If(nd.And(conn, !edges), 1, 0)+nd.If(nd.And(conn, !page), 1, 0))
		})
	case "relay-conn-args":
		alldefs(doc, false, func(d *ast.Definition) {
			for _, f := range d.Fields {
				has := func(n string) bool {
					r := false
					for _, a := range f.Arguments {
						r = nd.Or(r, a.Name == n)
					}
					return r
				}
				fwd, bwd := nd.And(has("first"), has("after")), nd.And(has("last"), has("before"))
				in := f.Type
				for in.Elem != nil {
					in = in.Elem
				}
				conn := strings.HasSuffix(in.NamedType, "Connection")
				at(f.Type.Position, nd.If(nd.And(conn, !nd.Or(fwd, bwd)), 1, 0))
				for _, a := range f.Arguments {
					wrong := nd.Or(a.Type.Elem != nil, a.Type.NamedType != "Int")
					nn := a.Type.NonNull
					bad := nd.Or(nd.And(a.Name == "first", nd.Or(wrong, nd.And(bwd, nn))), nd.And(a.Name == "last", nd.Or(wrong, nd.And(fwd, nn))))
					at(a.Position, nd.If(nd.And(conn, bad), 1, 0))
				}
			}
		})
	}
}

// decorate applies directives to all elements, or gives all a default value.
func decorate(doc *ast.SchemaDocument) {
	k := nd.Choice("decoration", 5)
	arg := func(n, v string, p *ast.Position) ast.ArgumentList {
		return ast.ArgumentList{{Name: n, Value: &ast.Value{Kind: ast.StringValue, Raw: v, Position: p}, Position: p}}
	}
	add := func(l *ast.DirectiveList, p *ast.Position) {
		switch k {
		case 1:
			*l = append(*l, &ast.Directive{Name: "deprecated", Position: p})
		case 2:
			*l = append(ast.DirectiveList{{Name: "deprecated", Arguments: arg("reason", "No longer supported", p), Position: p}}, *l...)
		case 3:
			*l = append(*l, &ast.Directive{Name: "external", Position: p}, &ast.Directive{Name: "key", Arguments: arg("fields", "id", p), Position: p},
				&ast.Directive{Name: "internal", Position: p}, &ast.Directive{Name: "key", Arguments: arg("fields", "name", p), Position: p}, &ast.Directive{Name: "inaccessible", Position: p})
		}
	}
	if k == 0 {
		return
	}
	alldefs(doc, true, func(d *ast.Definition) {
		add(&d.Directives, d.Position)
		for _, f := range d.Fields {
			add(&f.Directives, f.Position)
			for _, a := range f.Arguments {
				add(&a.Directives, a.Position)
				if k == 4 {
					a.DefaultValue = &ast.Value{Kind: ast.NullValue, Raw: "null", Position: a.Position}
				}
			}
			if k == 4 && d.Kind == ast.InputObject {
				f.DefaultValue = &ast.Value{Kind: ast.IntValue, Raw: "1", Position: f.Position}
			}
		}
		for _, v := range d.EnumValues {
			add(&v.Directives, v.Position)
		}
	})
}

// busy runs the rule on a parsed document in which all, some or none of the elements offend, and up to two neighbours (thorough three) are symbolic.
func busy(rule string) {
	texts := []func() string{func() string { return busyText }, func() string { return flat(busyText) }, func() string { return spread(busyText) }, long}
	doc := parse("f.graphql", texts[nd.Choice("text", len(texts))]())
	l := spots(rule, doc)
	every := nd.Choice("offending", tier(3, 4)) // none, all, every second, every third
	if every == 1 {
		decorate(doc)
	}
	for i, s := range l {
		if every > 0 && i%every == 0 {
			s.bad()
		}
	}
	i := nd.Choice("first", len(l))
	l[i].sym()
	for k := 1; k < tier(2, 3) && i+1 < len(l) && (nd.Deep() || rule != "field-camel"); k++ {
		step := 1
		if nd.Deep() && len(l)-i-1 > 2 {
			step = 2
		}
		i += 1 + nd.Choice("then", step)
		l[i].sym()
	}
	if rule == "relay-conn-args" { // argument names are unique
		alldefs(doc, false, func(d *ast.Definition) {
			for _, f := range d.Fields {
				for i, a := range f.Arguments {
					for _, o := range f.Arguments[:i] {
						nd.Assume(a.Name != o.Name)
					}
				}
			}
		})
	}
	if rule == "relay-conn-type" { // so are field names
		alldefs(doc, false, func(d *ast.Definition) {
			for i, f := range d.Fields {
				for _, o := range d.Fields[:i] {
					nd.Assume(f.Name != o.Name)
				}
			}
		})
	}
	b := newBuilder()
	b.refer(rule, doc)
	b.verify(rule, doc)
}

// H_L01_busy: Bounds: a parsed document that holds every kind of declaration (as written, on one line, or one element a line) or one with 20 members in a list and 12 types of a
// kind, in which none, all, every second (or, thorough, every third) element offends, and two neighbours (field-camel: one; thorough three, gaps of one) are symbolic.
func H_L01_busy() { busy("type-desc") }

// H_L02_busy: Bounds: a parsed document that holds every kind of declaration (as written, on one line, or one element a line) or one with 20 members in a list and 12 types of a
// kind, in which none, all, every second (or, thorough, every third) element offends, and two neighbours (field-camel: one; thorough three, gaps of one) are symbolic.
func H_L02_busy() { busy("args-desc") }

// H_L03_busy: Bounds: a parsed document that holds every kind of declaration (as written, on one line, or one element a line) or one with 20 members in a list and 12 types of a
// kind, in which none, all, every second (or, thorough, every third) element offends, and two neighbours (field-camel: one; thorough three, gaps of one) are symbolic.
func H_L03_busy() { busy("field-desc") }

// H_L04_busy: Bounds: a parsed document that holds every kind of declaration (as written, on one line, or one element a line) or one with 20 members in a list and 12 types of a
// kind, in which none, all, every second (or, thorough, every third) element offends, and two neighbours (field-camel: one; thorough three, gaps of one) are symbolic.
func H_L04_busy() { busy("enum-desc") }

// H_L05_busy: Bounds: a parsed document that holds every kind of declaration (as written, on one line, or one element a line) or one with 20 members in a list and 12 types of a
// kind, in which none, all, every second (or, thorough, every third) element offends, and two neighbours (field-camel: one; thorough three, gaps of one) are symbolic.
func H_L05_busy() { busy("enum-caps") }

// H_L06_busy: Bounds: a parsed document that holds every kind of declaration (as written, on one line, or one element a line) or one with 20 members in a list and 12 types of a
// kind, in which none, all, every second (or, thorough, every third) element offends, and two neighbours (field-camel: one; thorough three, gaps of one) are symbolic.
func H_L06_busy() { busy("field-camel") }

// H_L07_busy: Bounds: a parsed document that holds every kind of declaration (as written, on one line, or one element a line) or one with 20 members in a list and 12 types of a
// kind, in which none, all, every second (or, thorough, every third) element offends, and two neighbours (field-camel: one; thorough three, gaps of one) are symbolic.
func H_L07_busy() { busy("type-caps") }

// H_L08_busy: Bounds: a parsed document that holds every kind of declaration (as written, on one line, or one element a line) or one with 20 members in a list and 12 types of a
// kind, in which none, all, every second (or, thorough, every third) element offends, and two neighbours (field-camel: one; thorough three, gaps of one) are symbolic.
func H_L08_busy() { busy("relay-conn-type") }

// H_L09_busy: Bounds: a parsed document that holds every kind of declaration (as written, on one line, or one element a line) or one with 20 members in a list and 12 types of a
// kind, in which none, all, every second (or, thorough, every third) element offends, and two neighbours (field-camel: one; thorough three, gaps of one) are symbolic.
func H_L09_busy() { busy("relay-conn-args") }
