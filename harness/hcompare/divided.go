package hcompare

import (
	"strings"

	"github.com/vektah/gqlparser/v2/ast"

	"github.com/CrowdStrike/gql/pkg/compare"
	"github.com/CrowdStrike/gql/utils"
	"github.com/CrowdStrike/gql/zzverif/gen"
	"github.com/CrowdStrike/gql/zzverif/nd"
)

// ---- C26: how a schema is divided into extension blocks and files makes no difference.

// extendable has the parts an extension of each kind can have: head, interfaces, directives, members.
var extendable = []struct {
	head  string
	parts [5]string
	union bool
}{
	{"type T", [5]string{"implements A", "implements B", "@k", "f: Int @k", "\"d\" g(a: N!): [N]"}, false},
	{"interface T", [5]string{"@k", "@k(m: 1)", "f: Int @deprecated", "g(a: N = 1): N", "h: [N!]!"}, false},
	{"input T", [5]string{"@k", "@k", "f: Int = 1", "g: [N]!", "h: Int @k"}, false},
	{"enum T", [5]string{"@k", "@l(m: N)", "A", "\"d\" B @deprecated", "C @k"}, false},
	{"union T", [5]string{"@k", "@N", "A", "B", "N"}, true},
	{"scalar T", [5]string{"@k", "@l(m: 1)", "@l(m: 2)", "@k(m: 1)", "@N"}, false},
	{"schema", [5]string{"@k", "@N", "query: N", "mutation: M", "subscription: S"}, false},
}

// block writes one extension with the parts, or nothing if there are none.
func block(kind int, parts []string) string {
	k := extendable[kind]
	var i, d, m []string
	for _, p := range parts {
		switch {
		case strings.HasPrefix(p, "implements "):
			i = append(i, strings.TrimPrefix(p, "implements "))
		case strings.HasPrefix(p, "@"):
			d = append(d, p)
		default:
			m = append(m, p)
		}
	}
	if len(i)+len(d)+len(m) == 0 {
		return ""
	}
	s := "extend " + k.head
	if len(i) > 0 {
		s += " implements " + strings.Join(i, " & ")
	}
	if len(d) > 0 {
		s += " " + strings.Join(d, " ")
	}
	if len(m) > 0 && k.union {
		s += " = " + strings.Join(m, " | ")
	} else if len(m) > 0 {
		s += " { " + strings.Join(m, " ") + " }"
	}
	return s + "\n"
}

// H_C26_blocks: Bounds: one extended type of each of 6 kinds, or the schema, with 5 parts (directives, interfaces, members) in up to 2 (thorough: 3) extension blocks, another declaration between them or not,
// against one block of the same parts without one of them, or with another one; one name of one symbolic byte.
func H_C26_blocks() {
	kind := nd.Choice("kind", len(extendable))
	n := nd.BytesOf("name", 1, "NXx_")
	var parts []string
	for _, p := range extendable[kind].parts {
		parts = append(parts, gen.Text(p, n))
	}
	var blocks [3][]string
	for _, p := range parts {
		k := nd.Choice("block", 2)
		if nd.Deep() {
			k = nd.Choice("block", 3)
		}
		blocks[k] = append(blocks[k], p)
	}
	between := []string{"", "extend type Z { f: Int }\nenum T\n"}[nd.Choice("between", 2)]
	split := block(kind, blocks[0]) + between + block(kind, blocks[1]) + block(kind, blocks[2])
	whole := between + block(kind, parts)
	var other []string
	gone := nd.Choice("gone", 6)
	for i, p := range parts {
		if i != gone {
			other = append(other, p)
		} else if nd.Choice("instead", 2) == 1 {
			other = append(other, strings.ReplaceAll(strings.ReplaceAll(p, "Int", "Float"), "k", "z"))
		}
	}
	o := block(kind, other)
	docs := func(t string) *ast.SchemaDocument {
		d, _ := parseText("a.graphql", t)
		return d
	}
	a, b, c := docs(split), docs(whole), docs(o)
	nd.Assert(len(compare.FindChangesInSchemas(a, b)) == 0, "other blocks are no change")
	nd.Assert(len(compare.FindChangesInSchemas(b, a)) == 0, "other blocks are no change")
	sameSet(compare.FindChangesInSchemas(a, c), compare.FindChangesInSchemas(b, c))
	sameSet(compare.FindChangesInSchemas(c, a), compare.FindChangesInSchemas(c, b))
}

// scattered are declarations that can stand in any file.
var scattered = []string{
	"type T implements I @k { f: Int \"d\" g(a: Int = 1): N }",
	"extend type T { h: N }",
	"directive @d(a: Int, N: Int) repeatable on FIELD | ENUM",
	"extend type T @k { N: Int }",
	"\"d\" enum E { A \"d\" B }",
	"extend schema { mutation: N }",
	"schema @k { query: N }",
}

// H_C26_files: Bounds: a schema of 7 declarations (types, extensions of one type, directive, schema blocks), each in any of 2 files (thorough: 3), with or without line ends and comments at their ends, against
// the same in one file, without one declaration, or with another name or type in it; one name of one symbolic byte.
func H_C26_files() {
	n := nd.BytesOf("name", 1, "NXx_")
	names := []string{"b.graphql", "a/z.graphql", "c.gql"}
	old := map[string]string{"b.graphql": "", "a/z.graphql": ""}
	var other, all string
	gone := nd.Choice("gone", 8)
	end := []string{"", "\n", " # N \"\"\"", ",\n\n"}[gone%4]
	for i, p := range scattered {
		p = gen.Text(p, n)
		k := nd.Choice("file", 2)
		if nd.Deep() && i < 5 {
			k = nd.Choice("file", 3)
		}
		if old[names[k]] != "" {
			old[names[k]] += "\n"
		}
		old[names[k]] += p
		all += p + "\n"
		if i != gone {
			other += p + "\n"
		} else if nd.Choice("instead", 2) == 1 {
			other += strings.ReplaceAll(strings.ReplaceAll(p, "Int", "Float"), "\"d\"", "\"e\"") + "\n"
		}
	}
	files := map[string][]byte{}
	for _, f := range names {
		if t, ok := old[f]; ok {
			files[f] = []byte(t + end)
		}
	}
	a, err := utils.ParseSchema(files)
	nd.Assert(err == nil, "the files parse")
	b, err := utils.ParseSchema(map[string][]byte{"all.graphql": []byte(all)})
	nd.Assert(err == nil, "the file parses")
	c, err := utils.ParseSchema(map[string][]byte{"other.graphql": []byte(other)})
	nd.Assert(err == nil, "the other file parses")
	nd.Assert(len(compare.FindChangesInSchemas(a, b)) == 0, "other files are no change")
	nd.Assert(len(compare.FindChangesInSchemas(b, a)) == 0, "other files are no change")
	sameSet(compare.FindChangesInSchemas(a, c), compare.FindChangesInSchemas(b, c))
	sameSet(compare.FindChangesInSchemas(c, a), compare.FindChangesInSchemas(c, b))
}
