package hlint

import (
	"github.com/vektah/gqlparser/v2/ast"

	"github.com/CrowdStrike/gql/zzverif/nd"
)

// H_L01_types: Bounds: up to 3 definitions (thorough 4) and 2 extensions of any kind,
// names of 1..8 bytes, descriptions of 0..3 arbitrary bytes.
func H_L01_types() {
	b := newBuilder()
	doc := &ast.SchemaDocument{}
	for i := upto("defs", 3, 5); i > 0; i-- {
		p := b.pos(6)
		d := &ast.Definition{Kind: ast.DefinitionKind(nd.Pick("kind", "SCALAR", "OBJECT", "INTERFACE", "UNION", "ENUM", "INPUT_OBJECT")),
			Name: nd.Name("name", 8), Description: desc("desc"), Position: p}
		doc.Definitions = append(doc.Definitions, d)
		b.expect(p, true, d.Description == "", d.Name)
	}
	for i := upto("exts", 2, 2); i > 0; i-- {
		p := b.pos(13)
		d := &ast.Definition{Kind: ast.DefinitionKind(nd.Pick("ekind", "SCALAR", "OBJECT", "INTERFACE", "UNION", "ENUM", "INPUT_OBJECT")),
			Name: nd.Name("ename", 8), Position: p}
		doc.Extensions = append(doc.Extensions, d)
		b.expect(p, false, false)
	}
	b.verify("type-desc", doc)
}

// fieldsOf builds the fields of a definition; f is called for each.
func (b *builder) fieldsOf(d *ast.Definition, n int, f func(d *ast.Definition, fd *ast.FieldDefinition)) {
	for ; n > 0; n-- {
		p := b.pos(3)
		fd := &ast.FieldDefinition{Position: p, Type: namedType(b.same(p, 20), "String")}
		f(d, fd)
		d.Fields = append(d.Fields, fd)
	}
}

// fieldDocs builds a document with fields in definitions and extensions of every kind that has fields:
// one definition of any kind with up to n fields, then possibly a second definition, then up to 2 extensions.
func (b *builder) fieldDocs(n int, f func(d *ast.Definition, fd *ast.FieldDefinition)) *ast.SchemaDocument {
	doc := &ast.SchemaDocument{}
	mk := func(label string, k ast.DefinitionKind, col, n int) *ast.Definition {
		d := &ast.Definition{Kind: k, Name: nd.Name(label, 6), Position: b.pos(col)}
		b.fieldsOf(d, n, f)
		return d
	}
	shape := nd.Choice("shape", 4)
	k := kinds[nd.Choice("kind", len(kinds))]
	hasFields := k == ast.Object || k == ast.Interface || k == ast.InputObject
	cnt := func(n int) int {
		if !hasFields {
			return 0
		}
		return nd.Choice("fields", n+1)
	}
	switch shape {
	case 0: // one definition
		doc.Definitions = append(doc.Definitions, mk("type", k, 6, cnt(n)))
	case 1: // one extension
		doc.Extensions = append(doc.Extensions, mk("etype", k, 13, cnt(n)))
	case 2: // two definitions and one extension
		doc.Definitions = append(doc.Definitions, mk("type", k, 6, cnt(1)), mk("type2", kinds[nd.Choice("kind2", 3)], 6, 1))
		doc.Extensions = append(doc.Extensions, mk("etype", ast.Object, 13, 1))
	case 3: // one definition and two extensions
		doc.Definitions = append(doc.Definitions, mk("type", ast.Object, 6, 1))
		doc.Extensions = append(doc.Extensions, mk("etype", k, 13, cnt(1)), mk("etype2", kinds[nd.Choice("kind2", 3)], 13, 1))
	}
	return doc
}

func tier(quick, deep int) int {
	if nd.Deep() {
		return deep
	}
	return quick
}

// H_L03_fields: Bounds: one definition or extension of any kind with up to 4 fields (thorough 6), or
// three definitions and extensions of one field each, names of 1..6 bytes, descriptions of 0..3 bytes.
func H_L03_fields() {
	b := newBuilder()
	doc := b.fieldDocs(tier(4, 6), func(d *ast.Definition, fd *ast.FieldDefinition) {
		fd.Name = nd.Name("field", 6)
		fd.Description = desc("desc")
		b.expect(fd.Type.Position, false, fd.Description == "", d.Name, fd.Name)
	})
	b.verify("field-desc", doc)
}

// H_L02_args: Bounds: one or two object/interface definitions and up to 2 extensions,
// the first with up to 2 arguments (thorough 3) on its first field and one on its second, the others with one field
// of up to 1 argument (thorough 2), names of 1..4 bytes; H_L02_list has up to 4 arguments on one field.
func H_L02_args() {
	b := newBuilder()
	fld := func(d *ast.Definition, nargs int) {
		p := b.pos(3)
		fd := &ast.FieldDefinition{Position: p, Name: nd.Name("field", 4), Type: namedType(b.same(p, 40), "String"), Description: desc("fdesc")}
		for ; nargs > 0; nargs-- {
			ap := b.pos(7)
			a := &ast.ArgumentDefinition{Name: nd.Name("arg", 4), Description: desc("desc"), Position: ap, Type: namedType(b.same(ap, 12), "Int")}
			fd.Arguments = append(fd.Arguments, a)
			b.expect(ap, true, a.Description == "", d.Name, fd.Name, a.Name)
		}
		d.Fields = append(d.Fields, fd)
	}
	mk := func(label string, big bool) *ast.Definition {
		d := &ast.Definition{Kind: ast.Object, Name: nd.Name(label, 4), Position: b.pos(6)}
		if nd.Choice(label+".if", 2) == 1 {
			d.Kind = ast.Interface
		}
		if big {
			fld(d, upto(label+".args", 2, 3))
			if nd.Choice(label+".f2", 2) == 1 {
				fld(d, 1)
			}
		} else {
			fld(d, upto(label+".args", 1, 2))
		}
		return d
	}
	doc := &ast.SchemaDocument{}
	if nd.Choice("def", 2) == 1 {
		doc.Definitions = append(doc.Definitions, mk("type", true))
	}
	if nd.Choice("def2", 2) == 1 {
		doc.Definitions = append(doc.Definitions, mk("type2", false))
	}
	if nd.Choice("ext", 2) == 1 {
		doc.Extensions = append(doc.Extensions, mk("etype", true))
	}
	if nd.Deep() && nd.Choice("ext2", 2) == 1 {
		doc.Extensions = append(doc.Extensions, mk("etype2", false))
	}
	b.verify("args-desc", doc)
}

// H_L02_list: Bounds: one object or interface definition or extension with one field of up to 4 arguments (thorough 6).
func H_L02_list() {
	b := newBuilder()
	d := &ast.Definition{Kind: ast.Object, Name: nd.Name("type", 6), Position: b.pos(6)}
	if nd.Choice("if", 2) == 1 {
		d.Kind = ast.Interface
	}
	p := b.pos(3)
	fd := &ast.FieldDefinition{Position: p, Name: nd.Name("field", 6), Type: namedType(b.same(p, 40), "String"), Description: "d"}
	for n := upto("args", 4, 6); n > 0; n-- {
		ap := b.pos(7)
		a := &ast.ArgumentDefinition{Name: nd.Name("arg", 6), Description: desc("desc"), Position: ap, Type: namedType(b.same(ap, 12), "Int")}
		fd.Arguments = append(fd.Arguments, a)
		b.expect(ap, true, a.Description == "", d.Name, fd.Name, a.Name)
	}
	d.Fields = append(d.Fields, fd)
	doc := &ast.SchemaDocument{}
	if nd.Choice("ext", 2) == 1 {
		doc.Extensions = append(doc.Extensions, d)
	} else {
		doc.Definitions = append(doc.Definitions, d)
	}
	b.verify("args-desc", doc)
}

// enumDoc builds enums (and non-enums) as definitions and extensions.
func (b *builder) enumDoc(f func(d *ast.Definition, v *ast.EnumValueDefinition)) *ast.SchemaDocument {
	doc := &ast.SchemaDocument{}
	mk := func(label string, n int) *ast.Definition {
		d := &ast.Definition{Kind: ast.Enum, Name: nd.Name(label, 4), Position: b.pos(6)}
		for ; n > 0; n-- {
			v := &ast.EnumValueDefinition{Position: b.pos(3)}
			f(d, v)
			d.EnumValues = append(d.EnumValues, v)
		}
		return d
	}
	other := func() {
		k := kinds[nd.Choice("okind", len(kinds))]
		if k != ast.Enum {
			doc.Definitions = append(doc.Definitions, &ast.Definition{Kind: k, Name: nd.Name("otype", 4), Position: b.pos(6)})
		}
	}
	def := func(n int) { doc.Definitions = append(doc.Definitions, mk("enum", n)) }
	ext := func(n int) { doc.Extensions = append(doc.Extensions, mk("eenum", n)) }
	switch nd.Choice("shape", 5) {
	case 0:
		def(upto("vals", 4, 6))
	case 1:
		ext(upto("vals", 4, 6))
	case 2:
		other()
		def(2)
		def(1)
	case 3:
		def(1)
		ext(upto("vals", 2, 3))
		ext(1)
	case 4:
		def(upto("vals", 2, 3))
		other()
		def(upto("vals", 1, 2))
		ext(1)
	}
	return doc
}

// H_L04_enum: Bounds: one enum or enum extension of up to 4 values (thorough 6), or up to 4 enums, enum
// extensions and other types of up to 2 values (thorough 3) each, names of 1..4 bytes, descriptions 0..3 bytes; names need not be distinct.
func H_L04_enum() {
	b := newBuilder()
	doc := b.enumDoc(func(d *ast.Definition, v *ast.EnumValueDefinition) {
		v.Name = nd.Name("val", 4)
		v.Description = desc("desc")
		b.expect(v.Position, true, v.Description == "", d.Name, v.Name)
	})
	b.verify("enum-desc", doc)
}

// hasLower tells whether s (at most max bytes) contains a lower-case letter, without splitting cases.
func hasLower(s string, max int) bool {
	r := false
	for i := 0; i < max; i++ {
		c := nd.At(s, i)
		r = nd.Or(r, nd.And(c >= 'a', c <= 'z'))
	}
	return r
}

// H_L05_caps: Bounds: as H_L04_enum, value names of 1..4 bytes.
func H_L05_caps() {
	b := newBuilder()
	doc := b.enumDoc(func(d *ast.Definition, v *ast.EnumValueDefinition) {
		v.Name = nd.Name("val", 4)
		v.Description = "d"
		b.expect(v.Position, true, hasLower(v.Name, 4), d.Name, v.Name)
	})
	b.verify("enum-caps", doc)
}

// H_L05_long: Bounds: one enum value with a name of 1..24 bytes.
func H_L05_long() {
	b := newBuilder()
	v := &ast.EnumValueDefinition{Position: b.pos(3), Name: nd.Name("val", 24)}
	d := &ast.Definition{Kind: ast.Enum, Name: "E", EnumValues: ast.EnumValueList{v}, Position: b.pos(6)}
	b.expect(v.Position, true, hasLower(v.Name, 24), v.Name)
	doc := &ast.SchemaDocument{}
	if nd.Choice("ext", 2) == 1 {
		doc.Extensions = append(doc.Extensions, d)
	} else {
		doc.Definitions = append(doc.Definitions, d)
	}
	b.verify("enum-caps", doc)
}

// isCamel is the reference for field-camel.
func isCamel(s string, max int) bool {
	ok := true
	for i := 0; i < max; i++ {
		c := nd.At(s, i)
		lo := nd.And(c >= 'a', c <= 'z')
		up := nd.And(c >= 'A', c <= 'Z')
		dg := nd.And(c >= '0', c <= '9')
		if i == 0 {
			ok = nd.And(ok, lo)
		} else {
			ok = nd.And(ok, nd.Or(c == 0, nd.Or(lo, nd.Or(up, dg))))
		}
	}
	return ok
}

// H_L06_camel: Bounds: one definition or extension of any kind with up to 2 fields (thorough 3), or
// three definitions and extensions of one field each, names of 1..2 bytes.
func H_L06_camel() {
	b := newBuilder()
	doc := b.fieldDocs(tier(2, 3), func(d *ast.Definition, fd *ast.FieldDefinition) {
		fd.Name = nd.Name("field", 2)
		b.expect(fd.Type.Position, false, !isCamel(fd.Name, 2), d.Name, fd.Name)
	})
	b.verify("field-camel", doc)
}

// H_L06_long: Bounds: one field with a name of 1..10 bytes.
func H_L06_long() {
	b := newBuilder()
	p := b.pos(3)
	fd := &ast.FieldDefinition{Name: nd.Name("field", 10), Position: p, Type: namedType(b.same(p, 20), "String")}
	d := &ast.Definition{Kind: ast.Object, Name: "T", Fields: ast.FieldList{fd}, Position: b.pos(6)}
	b.expect(fd.Type.Position, false, !isCamel(fd.Name, 10), d.Name, fd.Name)
	doc := &ast.SchemaDocument{}
	if nd.Choice("ext", 2) == 1 {
		doc.Extensions = append(doc.Extensions, d)
	} else {
		doc.Definitions = append(doc.Definitions, d)
	}
	b.verify("field-camel", doc)
}

// H_L07_types: Bounds: up to 3 definitions and 3 extensions (thorough 4 and 4) of any kind, names of 1..8 bytes.
func H_L07_types() {
	b := newBuilder()
	doc := &ast.SchemaDocument{}
	mk := func(label string, col int) *ast.Definition {
		p := b.pos(col)
		d := &ast.Definition{Kind: ast.DefinitionKind(nd.Pick(label+".kind", "SCALAR", "OBJECT", "INTERFACE", "UNION", "ENUM", "INPUT_OBJECT")),
			Name: nd.Name(label, 8), Position: p}
		b.expect(p, true, nd.And(d.Name[0] >= 'a', d.Name[0] <= 'z'), d.Name)
		return d
	}
	for i := upto("defs", 3, 4); i > 0; i-- {
		doc.Definitions = append(doc.Definitions, mk("name", 6))
	}
	for i := upto("exts", 3, 4); i > 0; i-- {
		doc.Extensions = append(doc.Extensions, mk("ename", 13))
	}
	b.verify("type-caps", doc)
}
