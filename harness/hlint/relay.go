package hlint

import (
	"strings"

	"github.com/vektah/gqlparser/v2/ast"

	"github.com/CrowdStrike/gql/zzverif/nd"
)

// typeRef is a type with what the reference needs to know about it.
func (b *builder) typeRef(label string, p *ast.Position, named string) (t *ast.Type, list, nonNull bool) {
	nonNull = nd.Bool(label + ".nn")
	switch nd.Choice(label+".wrap", 3) {
	case 0:
		return &ast.Type{NamedType: named, NonNull: nonNull, Position: p}, false, nonNull
	case 1:
		return &ast.Type{Elem: &ast.Type{NamedType: named, NonNull: nd.Bool(label + ".nn1"), Position: p}, NonNull: nonNull, Position: p}, true, nonNull
	}
	in := &ast.Type{Elem: &ast.Type{NamedType: named, NonNull: nd.Bool(label + ".nn2"), Position: p}, NonNull: nd.Bool(label + ".nn1"), Position: p}
	return &ast.Type{Elem: in, NonNull: nonNull, Position: p}, true, nonNull
}

// connType adds one definition and the reference's expectations for relay-conn-type.
func (b *builder) connType(label string, k ast.DefinitionKind, nf int) *ast.Definition {
	p := b.pos(6)
	d := &ast.Definition{Kind: k, Name: nd.Name(label, 13), Position: p}
	conn := strings.HasSuffix(d.Name, "Connection")
	if k != ast.Object {
		b.expectN(p, nd.If(conn, 1, 0))
	}
	edges, page := false, false
	for ; nf > 0; nf-- {
		fp := b.pos(3)
		fd := &ast.FieldDefinition{Position: fp, Name: nd.Name(label+".f", 8)}
		tn := nd.Name(label+".t", 9)
		tp := b.same(fp, 20)
		t, list, nn := b.typeRef(label+".ft", tp, tn)
		fd.Type = t
		d.Fields = append(d.Fields, fd)
		isE, isP := fd.Name == "edges", fd.Name == "pageInfo"
		edges, page = nd.Or(edges, isE), nd.Or(page, isP)
		badE := nd.And(isE, !list)
		badP := nd.And(isP, nd.Or(list, nd.Or(!nn, tn != "PageInfo")))
		if k == ast.Object {
			b.expectN(tp, nd.If(nd.And(conn, nd.Or(badE, badP)), 1, 0))
		} else {
			b.expectN(tp, 0)
		}
	}
	if k == ast.Object {
		b.expectN(p, nd.If(nd.And(conn, !edges), 1, 0)+nd.If(nd.And(conn, !page), 1, 0))
	}
	return d
}

// H_L08_one: Bounds: one definition of any kind with up to 2 fields (thorough 3), names of 1..13 bytes,
// field names of 1..8 and type names of 1..9 bytes, list nesting up to 2 with any non-null markers.
func H_L08_one() {
	b := newBuilder()
	k := kinds[nd.Choice("kind", len(kinds))]
	nf := 0
	if k == ast.Object || k == ast.Interface || k == ast.InputObject {
		nf = upto("fields", 2, 3)
	}
	doc := &ast.SchemaDocument{Definitions: ast.DefinitionList{b.connType("type", k, nf)}}
	b.verify("relay-conn-type", doc)
}

// H_L08_many: Bounds: two or three definitions, the middle one an object with one field, and an extension (never reported).
func H_L08_many() {
	b := newBuilder()
	doc := &ast.SchemaDocument{}
	doc.Definitions = append(doc.Definitions, b.connType("type", kinds[nd.Choice("kind", len(kinds))], 0))
	doc.Definitions = append(doc.Definitions, b.connType("type2", ast.Object, 1))
	if nd.Deep() {
		doc.Definitions = append(doc.Definitions, b.connType("type3", kinds[nd.Choice("kind3", 2)], 1))
	} else {
		doc.Definitions = append(doc.Definitions, b.connType("type3", ast.Object, 0))
	}
	doc.Extensions = append(doc.Extensions, &ast.Definition{Kind: ast.Object, Name: nd.Name("ext", 13), Position: b.pos(13)})
	b.verify("relay-conn-type", doc)
}

// connField makes a field of the given arguments with the expectations for relay-conn-args.
func (b *builder) connField(label string, in *ast.Definition, argName func(i int) string, n int) {
	fp := b.pos(3)
	fd := &ast.FieldDefinition{Position: fp, Name: nd.Name(label, 6)}
	tn := nd.Name(label+".type", 12)
	tp := b.same(fp, 60)
	t, _, _ := b.typeRef(label+".ft", tp, tn)
	fd.Type = t
	conn := strings.HasSuffix(tn, "Connection")
	type arg struct {
		name          string
		list, nn, int bool
		pos           *ast.Position
	}
	var args []arg
	for i := 0; i < n; i++ {
		ap := b.pos(8)
		a := arg{name: argName(i), pos: ap}
		an := nd.Name(label+".at", 4)
		var at *ast.Type
		at, a.list, a.nn = b.typeRef(label+".argt", b.same(ap, 20), an)
		a.int = an == "Int"
		for _, o := range args {
			nd.Assume(o.name != a.name)
		}
		args = append(args, a)
		fd.Arguments = append(fd.Arguments, &ast.ArgumentDefinition{Name: a.name, Type: at, Position: ap})
	}
	has := func(s string) bool {
		r := false
		for _, a := range args {
			r = nd.Or(r, a.name == s)
		}
		return r
	}
	fwd, bwd := nd.And(has("first"), has("after")), nd.And(has("last"), has("before"))
	b.expectN(tp, nd.If(nd.And(conn, !nd.Or(fwd, bwd)), 1, 0))
	for _, a := range args {
		wrong := nd.Or(a.list, !a.int)
		bad := nd.Or(nd.And(a.name == "first", nd.Or(wrong, nd.And(bwd, a.nn))), nd.And(a.name == "last", nd.Or(wrong, nd.And(fwd, a.nn))))
		b.expectN(a.pos, nd.If(nd.And(conn, bad), 1, 0))
	}
	in.Fields = append(in.Fields, fd)
}

// H_L09_names: Bounds: one field with up to 2 arguments (thorough 3) of arbitrary distinct names of 1..6 bytes,
// type names of 1..12 bytes, argument types of 1..4 bytes, list nesting up to 2.
func H_L09_names() {
	b := newBuilder()
	d := &ast.Definition{Kind: ast.Object, Name: nd.Name("type", 4), Position: b.pos(6)}
	if nd.Choice("if", 2) == 1 {
		d.Kind = ast.Interface
	}
	b.connField("f", d, func(int) string { return nd.Name("arg", 6) }, upto("args", 2, 3))
	b.verify("relay-conn-args", &ast.SchemaDocument{Definitions: ast.DefinitionList{d}})
}

// H_L09_pagination: Bounds: one connection field with every subset of first, after, last, before (in the order of the
// specification or reversed), every argument type (list nesting up to 2, type names of 1..4 bytes).
func H_L09_pagination() {
	b := newBuilder()
	all := []string{"first", "after", "last", "before"}
	var sel []string
	for _, a := range all {
		if nd.Choice(a, 2) == 1 {
			sel = append(sel, a)
		}
	}
	if nd.Choice("reverse", 2) == 1 {
		for i, j := 0, len(sel)-1; i < j; i, j = i+1, j-1 {
			sel[i], sel[j] = sel[j], sel[i]
		}
	}
	d := &ast.Definition{Kind: ast.Object, Name: "T", Position: b.pos(6)}
	fp := b.pos(3)
	tp := b.same(fp, 60)
	fd := &ast.FieldDefinition{Position: fp, Name: "f", Type: namedType(tp, "UserConnection")}
	fwd, bwd := false, false
	has := map[string]bool{}
	for _, s := range sel {
		has[s] = true
	}
	fwd, bwd = has["first"] && has["after"], has["last"] && has["before"]
	b.expectN(tp, nd.If(fwd || bwd, 0, 1))
	for _, s := range sel {
		ap := b.pos(8)
		a := &ast.ArgumentDefinition{Name: s, Position: ap}
		if s == "first" || s == "last" {
			tn := nd.Name(s+".t", 4)
			t, list, nn := b.typeRef(s, b.same(ap, 20), tn)
			a.Type = t
			other := bwd
			if s == "last" {
				other = fwd
			}
			b.expectN(ap, nd.If(nd.Or(list, nd.Or(tn != "Int", nd.And(other, nn))), 1, 0))
		} else {
			a.Type = &ast.Type{NamedType: nd.Name(s+".t", 6), NonNull: nd.Bool(s + ".nn"), Position: b.same(ap, 20)}
			b.expectN(ap, 0)
		}
		fd.Arguments = append(fd.Arguments, a)
	}
	d.Fields = append(d.Fields, fd)
	b.verify("relay-conn-args", &ast.SchemaDocument{Definitions: ast.DefinitionList{d}})
}

// H_L09_many: Bounds: two definitions of two fields each with up to 1 argument, and an extension (never reported).
func H_L09_many() {
	b := newBuilder()
	d := &ast.Definition{Kind: ast.Object, Name: "A", Position: b.pos(6)}
	opts := func(int) string { return nd.Pick("an", "first", "after", "last", "before", "other") }
	simple := func(label string, in *ast.Definition, n int) {
		fp := b.pos(3)
		tp := b.same(fp, 60)
		tn := nd.Name(label+".type", 12)
		fd := &ast.FieldDefinition{Position: fp, Name: nd.Name(label, 4), Type: namedType(tp, tn)}
		conn := strings.HasSuffix(tn, "Connection")
		b.expectN(tp, nd.If(conn, 1, 0))
		for i := 0; i < n; i++ {
			ap := b.pos(8)
			name := opts(i)
			an := nd.Name(label+".at", 4)
			fd.Arguments = append(fd.Arguments, &ast.ArgumentDefinition{Name: name, Position: ap, Type: &ast.Type{NamedType: an, NonNull: nd.Bool("nn"), Position: ap}})
			b.expectN(ap, nd.If(nd.And(conn, nd.And(nd.Or(name == "first", name == "last"), an != "Int")), 1, 0))
		}
		in.Fields = append(in.Fields, fd)
	}
	simple("f1", d, 1)
	simple("f2", d, nd.Choice("n2", 2))
	e := &ast.Definition{Kind: ast.Interface, Name: "B", Position: b.pos(6)}
	simple("f3", e, 1)
	x := &ast.Definition{Kind: ast.Object, Name: "A", Position: b.pos(13)}
	xp := b.pos(3)
	x.Fields = ast.FieldList{{Name: "g", Position: xp, Type: namedType(b.same(xp, 20), "GConnection")}}
	b.verify("relay-conn-args", &ast.SchemaDocument{Definitions: ast.DefinitionList{d, e}, Extensions: ast.DefinitionList{x}})
}
