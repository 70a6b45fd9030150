// Package hutil holds the harnesses of the properties of reading and parsing files.
package hutil

import (
	"path/filepath"
	"strings"

	"github.com/vektah/gqlparser/v2/ast"
	"github.com/vektah/gqlparser/v2/parser"

	"github.com/CrowdStrike/gql/utils"
	"github.com/CrowdStrike/gql/zzverif/gen"
	"github.com/CrowdStrike/gql/zzverif/nd"
)

func tier(quick, deep int) int {
	if nd.Deep() {
		return deep
	}
	return quick
}

// ---- U01

// patterns and the files of the pool they match, by definition.
var patterns = []struct {
	pattern string
	match   []string
	bad     bool
}{
	{"a.graphql", []string{"a.graphql"}, false},
	{"*.graphql", []string{"a.graphql", "b.graphql", "c.graphql"}, false},
	{"?.graphql", []string{"a.graphql", "b.graphql", "c.graphql"}, false},
	{"[ab].*", []string{"a.graphql", "b.graphql"}, false},
	{"*", []string{"a.graphql", "b.graphql", "c.graphql", "d.txt"}, false},
	{"[^a]*", []string{"b.graphql", "c.graphql", "d.txt"}, false},
	{"*.gql", nil, false},
	{"e.graphql", nil, false},
	{"[a", nil, true},
	{"", nil, false},
}

var pool = []string{"a.graphql", "b.graphql", "c.graphql", "d.txt"}

// reading states what reading the pattern gives.
func reading(pattern string, bad bool, match []string, state map[string]int, content map[string]string) {
	got, err := utils.ReadFiles(pattern)
	fail := bad
	n := 0
	for _, f := range match {
		switch state[f] {
		case 1:
			n++
		case 2, 3, 4:
			fail = true
		}
	}
	if n == 0 {
		fail = true
	}
	nd.Obs("failed", err != nil)
	nd.Assert((err != nil) == fail, "reading fails exactly when a matched file cannot be read, none is matched or the pattern is bad")
	if fail {
		nd.Assert(len(got) == 0, "no partial result")
		nd.Reach("failed")
		return
	}
	nd.Assert(len(got) == n, "as many files as matched")
	for _, f := range match {
		b, ok := got[f]
		if state[f] != 1 {
			nd.Assert(!ok, "no file that does not exist")
			continue
		}
		nd.Assert(ok, "every matched file is read")
		nd.Assert(string(b) == content[f], "every file is read completely")
		nd.Obs(f, string(b))
	}
	nd.Reach("read")
}

// H_U01_files: Bounds: 4 files, each absent, readable, gone, impossible to read or (the second) forbidden, 10 patterns, up to 2 arbitrary bytes (thorough 3) of content.
func H_U01_files() {
	state := map[string]int{}
	content := map[string]string{}
	for i, f := range pool {
		s := nd.Choice("state", 5)
		if i == 3 && s > 1 || s == 4 && i != 1 {
			nd.Assume(false)
		}
		state[f] = s
		switch s {
		case 1:
			content[f] = nd.Str("content", tier(2, 3))
			nd.File(f, content[f])
		case 2, 3, 4:
			nd.BadFile(f, s-1)
		}
	}
	p := patterns[nd.Choice("pattern", len(patterns))]
	reading(p.pattern, p.bad, p.match, state, content)
}

// H_U01_long: Bounds: two files, one of 0..1500000 bytes (15 lengths around the usual buffer sizes) ending in two arbitrary bytes.
func H_U01_long() {
	n := []int{0, 1, 511, 512, 513, 1024, 4095, 4096, 4097, 32768, 65535, 65536, 70000, 1 << 20, 1500000}[nd.Choice("length", 15)]
	b := strings.Repeat("# comment\ntype A { f: Int }\n", n/28+1)[:n]
	c := map[string]string{"a.graphql": b + nd.Bytes("end", 2), "b.graphql": "type B"}
	nd.File("a.graphql", c["a.graphql"])
	nd.File("b.graphql", c["b.graphql"])
	got, err := utils.ReadFiles("*.graphql")
	nd.Assert(err == nil, "reading succeeds")
	nd.Assert(len(got) == 2, "as many files as matched")
	for f, want := range c {
		nd.Assert(string(got[f]) == want, "every file is read completely")
	}
	nd.Reach("read")
}

// H_U01_many: Bounds: 1..9 files, the one at any place gone, impossible to read, forbidden, or readable.
func H_U01_many() {
	names := []string{"a.graphql", "b.graphql", "c.graphql", "d.graphql", "e.graphql", "f.graphql", "g.graphql", "h.graphql", "i.graphql"}
	n := 1 + nd.Choice("files", len(names))
	k := nd.Choice("special", n)
	state := map[string]int{}
	content := map[string]string{}
	for i, f := range names[:n] {
		state[f] = 1
		if i == k {
			state[f] = 1 + nd.Choice("state", 4)
		}
		if state[f] == 1 {
			content[f] = "type " + f[:1] + nd.BytesOf("content", 1, "XYZ")
			nd.File(f, content[f])
		} else {
			nd.BadFile(f, state[f]-1)
		}
	}
	reading("*.graphql", false, names[:n], state, content)
}

// H_U01_folders: Bounds: 6 files in 3 folders, one of them (any) missing, gone, impossible to read or forbidden, 11 patterns with folders.
func H_U01_folders() {
	files := []string{"a.graphql", "s/a.graphql", "s/b.graphql", "t/a.graphql", "t/u/a.graphql", "t/c.txt"}
	state := map[string]int{}
	content := map[string]string{}
	k := nd.Choice("special", len(files))
	for i, f := range files {
		state[f] = 1
		if i == k {
			state[f] = nd.Choice("state", 5)
		}
		switch state[f] {
		case 1:
			content[f] = "# " + f + nd.BytesOf("content", 1, "xyz")
			nd.File(f, content[f])
		case 2, 3, 4:
			nd.BadFile(f, state[f]-1)
		}
	}
	p := []struct {
		pattern string
		match   []string
		bad     bool
	}{
		{"s/a.graphql", []string{"s/a.graphql"}, false},
		{"s/*.graphql", []string{"s/a.graphql", "s/b.graphql"}, false},
		{"*/a.graphql", []string{"s/a.graphql", "t/a.graphql"}, false},
		{"*/*.graphql", []string{"s/a.graphql", "s/b.graphql", "t/a.graphql"}, false},
		{"*/*/*", []string{"t/u/a.graphql"}, false},
		{"t/*.*", []string{"t/a.graphql", "t/c.txt"}, false},
		{"*.graphql", []string{"a.graphql"}, false},
		{"[st]/[ac].*", []string{"s/a.graphql", "t/a.graphql", "t/c.txt"}, false},
		{"t/*", []string{"t/a.graphql", "t/c.txt"}, state["t/u/a.graphql"] != 0}, // t/u is a folder
		{"t/u", nil, true},
		{"v/*", nil, false},
	}[nd.Choice("pattern", 11)]
	reading(p.pattern, p.bad, p.match, state, content)
}

// H_U01_names: Bounds: 4 files (one of an early name), the second of any of 27 unusual names (leading _ . - ~ #, blanks, capitals, digits, two dots, no extension, non-ASCII, symbolic letter),
// readable, gone, impossible to read or forbidden; patterns *, *.graphql and the name itself.
func H_U01_names() {
	odd := unusual[nd.Choice("name", len(unusual))]
	if strings.Contains(odd, "N") {
		odd = strings.ReplaceAll(odd, "N", nd.BytesOf("letter", 1, "mMz09_-."))
	}
	state := map[string]int{"0.graphql": 1, "a.graphql": 1, "z.graphql": 1, odd: 1 + nd.Choice("state", 4)}
	content := map[string]string{"0.graphql": "type O", "a.graphql": "type A", "z.graphql": "type Z", odd: "type N"}
	for f := range state {
		if state[f] == 1 {
			nd.File(f, content[f])
		}
	}
	if state[odd] > 1 {
		nd.BadFile(odd, state[odd]-1)
	}
	all := []string{"0.graphql", "a.graphql", odd, "z.graphql"}
	switch nd.Choice("pattern", 3) {
	case 0:
		reading("*", false, all, state, content)
	case 1:
		if !strings.HasSuffix(odd, ".graphql") {
			all = []string{"0.graphql", "a.graphql", "z.graphql"}
		}
		reading("*.graphql", false, all, state, content)
	case 2:
		reading(odd, false, []string{odd}, state, content)
	}
}

// unusual are file names. N is a symbolic letter.
var unusual = []string{
	"_b.graphql", ".b.graphql", "-b.graphql", "~b.graphql", "#b.graphql", " b.graphql", "b .graphql", "B.graphql", "b.GraphQL", "b.GRAPHQL", "1.graphql", "b.c.graphql", "b.graphql.graphql",
	"b", ".graphql", "b.graphql~", "b.graphql.bak", "b.graphqls", "b.gql", "b_test.graphql", "\u00e9.graphql", "b,c.graphql", "bN.graphql", "N", "b.graphqlN", "%s.graphql", "b:1.graphql",
}

// ---- U03, U04

// mixed makes up to 3 files in any state and gives a pattern that matches them.
func mixed() (pattern string, bad map[string]string) {
	bad = map[string]string{}
	names := []string{"a" + nd.BytesOf("first", 1, "_b0") + ".graphql", "m.graphql", "x y%d.graphql"}
	for _, f := range names {
		switch s := nd.Choice("state", 5); s {
		case 1:
			nd.File(f, nd.Str("content", 1))
		case 2, 3, 4:
			if s == 4 && f != "m.graphql" {
				nd.Assume(false)
			}
			nd.BadFile(f, s-1)
			bad[f] = []string{"no such file or directory", "is a directory", "permission denied"}[s-2]
		}
	}
	return []string{"*.graphql", "?*.graphql", names[0], "m.graphql", "x y%d.graphql", "*.gql", "[m", "", "s/*.graphql", "[amx]*"}[nd.Choice("pattern", 10)], bad
}

// H_U03_causes: Bounds: 3 files, each absent, empty or of one byte, gone, impossible to read or (the second) forbidden, 10 patterns.
func H_U03_causes() {
	p, bad := mixed()
	_, err := utils.ReadFiles(p)
	if err == nil {
		nd.Reach("read")
		return
	}
	msg := err.Error()
	nd.Obs("message", msg)
	nd.Assert(strings.Contains(msg, p), "the message names the path")
	if strings.Contains(msg, "fail") {
		nd.Reach("file")
	} else {
		nd.Reach("pattern")
	}
	any := len(bad) == 0
	named := false
	for f, why := range bad {
		if ok, _ := filepath.Match(p, f); ok {
			named = true
			any = any || strings.Contains(msg, f) && strings.Contains(msg, why)
		}
	}
	nd.Assert(!named || any, "the message names a file that cannot be read, and why")
	nd.Assert(!strings.Contains(msg, "nil"), "the message does not lack its cause")
}

// H_U03_which: Bounds: 2..6 files, one of them (any) gone, impossible to read or forbidden, read by a pattern of its own or with the others.
func H_U03_which() {
	names := []string{"api1.graphql", "base2.graphql", "core3.graphql", "data4.graphql", "edge5.graphql", "form6.graphql"}
	n := 2 + nd.Choice("files", 5)
	k := nd.Choice("bad", n)
	how := 1 + nd.Choice("state", 3)
	for i, f := range names[:n] {
		if i == k {
			nd.BadFile(f, how)
		} else {
			nd.File(f, "type A")
		}
	}
	p := []string{"*.graphql", "[a-f]*", "*" + names[k][4:]}[nd.Choice("pattern", 3)]
	_, err := utils.ReadFiles(p)
	if err == nil {
		nd.Assert(how == 1 && p[0] != '*' || how == 1, "a file that cannot be read is a failure")
		nd.Reach("read")
		return
	}
	msg := err.Error()
	nd.Obs("message", msg)
	nd.Assert(strings.Contains(msg, p), "the message names the path")
	if how > 1 {
		nd.Assert(strings.Contains(msg, names[k]), "the message names the file that cannot be read")
		nd.Assert(strings.Contains(msg, []string{"is a directory", "permission denied"}[how-2]), "the message says why")
		for i, f := range names[:n] {
			nd.Assert(i == k || !strings.Contains(msg, f), "the message names no file that can be read")
		}
		nd.Reach("file")
	}
}

// H_U04_closed: Bounds: 3 files, each absent, empty or of one byte, gone, impossible to read or (the second) forbidden, 10 patterns, read twice.
func H_U04_closed() {
	p, _ := mixed()
	_, err := utils.ReadFiles(p)
	n := nd.OpenFiles()
	nd.Obs("open", n)
	nd.Assert(n == 0, "no file is left open")
	_, again := utils.ReadFiles(p)
	nd.Assert(nd.OpenFiles() == 0, "no file is left open")
	nd.Assert((err == nil) == (again == nil), "reading again gives the same result")
	if err == nil {
		nd.Reach("read")
	} else {
		nd.Reach("failed")
	}
}

// H_U04_many: Bounds: 1..40 files, the one at any place of the first 8 gone, impossible to read, forbidden, or none.
func H_U04_many() {
	n := 1 + nd.Choice("files", 40)
	k := nd.Choice("special", 9) // 8: none
	for i := 0; i < n; i++ {
		f := "f" + nd.Itoa(10+i) + ".graphql"
		if i == k && k < 8 {
			nd.BadFile(f, 1+nd.Choice("state", 3))
		} else {
			nd.File(f, "type A")
		}
	}
	_, err := utils.ReadFiles("*.graphql")
	nd.Assert((err != nil) == (k < n && k < 8), "reading fails exactly when a file cannot be read")
	nd.Assert(nd.OpenFiles() == 0, "no file is left open")
	nd.Reach("read")
}

// ---- U02

func parse(file, t string) (*ast.SchemaDocument, error) {
	d, err := parser.ParseSchema(&ast.Source{Name: file, Input: t})
	if err != nil {
		return nil, err
	}
	return d, nil
}

func sameDefs(all, own ast.DefinitionList, file, text string) int {
	var mine ast.DefinitionList
	for _, d := range all {
		if d.Position.Src.Name == file {
			mine = append(mine, d)
		}
	}
	nd.Assert(len(mine) == len(own), "every definition of every file is there once")
	for i, d := range mine {
		o := own[i]
		nd.Assert(d.Name == o.Name && d.Kind == o.Kind && d.Description == o.Description, "a definition is that of the file")
		nd.Assert(len(d.Fields) == len(o.Fields) && len(d.Directives) == len(o.Directives) && len(d.EnumValues) == len(o.EnumValues) &&
			len(d.Types) == len(o.Types) && len(d.Interfaces) == len(o.Interfaces), "a definition is that of the file")
		nd.Assert(d.Position.Line == o.Position.Line && d.Position.Column == o.Position.Column, "a definition has its place")
		nd.Assert(d.Position.Src.Input == text, "a definition has its source")
		for j, f := range d.Fields {
			nd.Assert(f.Name == o.Fields[j].Name && f.Position.Src.Name == file, "a field is that of the file")
		}
	}
	return len(own)
}

func sameSchemas(all, own ast.SchemaDefinitionList, file string) int {
	var mine ast.SchemaDefinitionList
	for _, d := range all {
		if d.Position.Src.Name == file {
			mine = append(mine, d)
		}
	}
	nd.Assert(len(mine) == len(own), "every schema block of every file is there once")
	for i, d := range mine {
		nd.Assert(len(d.OperationTypes) == len(own[i].OperationTypes) && len(d.Directives) == len(own[i].Directives), "a schema block is that of the file")
		for j, o := range d.OperationTypes {
			nd.Assert(o.Type == own[i].OperationTypes[j].Type && o.Operation == own[i].OperationTypes[j].Operation, "a root operation is that of the file")
		}
	}
	return len(own)
}

func sameDirs(all, own ast.DirectiveDefinitionList, file string) int {
	var mine ast.DirectiveDefinitionList
	for _, d := range all {
		if d.Position.Src.Name == file {
			mine = append(mine, d)
		}
	}
	nd.Assert(len(mine) == len(own), "every directive of every file is there once")
	for i, d := range mine {
		nd.Assert(d.Name == own[i].Name && len(d.Arguments) == len(own[i].Arguments) && len(d.Locations) == len(own[i].Locations), "a directive is that of the file")
	}
	return len(own)
}

// union states that parsing the files together gives what parsing each of them gives.
func union(names, texts []string) {
	m := map[string][]byte{}
	var docs []*ast.SchemaDocument
	bad := false
	for i, n := range names {
		m[n] = []byte(texts[i])
		d, err := parse(n, texts[i])
		if err != nil {
			bad = true
		}
		docs = append(docs, d)
	}
	nd.MapOrders(true)
	all, err := utils.ParseSchema(m)
	nd.MapOrders(false)
	nd.Obs("failed", err != nil)
	nd.Assert((err != nil) == bad, "parsing fails exactly when a file does not parse")
	if bad {
		nd.Assert(all == nil, "no partial document")
		nd.Reach("failed")
		return
	}
	a, b, c, d, e := 0, 0, 0, 0, 0
	for i, n := range names {
		a += sameDefs(all.Definitions, docs[i].Definitions, n, texts[i])
		b += sameDefs(all.Extensions, docs[i].Extensions, n, texts[i])
		c += sameSchemas(all.Schema, docs[i].Schema, n)
		d += sameSchemas(all.SchemaExtension, docs[i].SchemaExtension, n)
		e += sameDirs(all.Directives, docs[i].Directives, n)
	}
	nd.Assert(len(all.Definitions) == a, "no other definition")
	nd.Assert(len(all.Extensions) == b, "no other extension")
	nd.Assert(len(all.Schema) == c, "no other schema block")
	nd.Assert(len(all.SchemaExtension) == d, "no other schema extension")
	nd.Assert(len(all.Directives) == e, "no other directive")
	nd.Obs("definitions", a)
	nd.Reach("parsed")
}

var broken = []string{"type", "type A { f }", "enum E { }", "schema { query: }", "}", "\"unfinished", "type A { f: Int } %"}

// H_U02_two: Bounds: two files, each one of 31 declarations with a symbolic name of one letter (quick: the second one of 11), read in any order.
func H_U02_two() {
	x := gen.Text(gen.Menu[nd.Choice("first", len(gen.Menu))], nd.BytesOf("name", 1, "ABNx"))
	k := 0
	if nd.Deep() {
		k = nd.Choice("second", len(gen.Menu))
	} else {
		k = []int{0, 2, 3, 4, 9, 12, 13, 21, 28, 29, 30}[nd.Choice("second", 11)]
	}
	union([]string{"a.graphql", "b.graphql"}, []string{x, gen.Text(gen.Menu[k], nd.BytesOf("name", 1, "ABNx")) + "\ntype Z"})
}

// H_U02_many: Bounds: 1..4 files out of 6 contents each, read in any order.
func H_U02_many() {
	texts := []string{"", "type A { f: Int }\nextend type A { g: Int }", "extend type A { h: Int }", "schema { query: A }\nextend schema { mutation: A }", "directive @d on FIELD\nenum E { X }", "# only\n"}
	names := []string{"x.graphql", "a.graphql", "sub/b.graphql", "c"}
	n := 1 + nd.Choice("files", tier(3, 4))
	var l []string
	for i := 0; i < n; i++ {
		l = append(l, texts[nd.Choice("text", len(texts))])
	}
	union(names[:n], l)
}

// H_U02_prefix: Bounds: 1..4 files, the one at any place (thorough: two) starting with a byte order mark, blanks, comments, line ends or descriptions (9 prefixes) and with 1..3 declarations
// of a symbolic name, read in any order.
func H_U02_prefix() {
	names := []string{"x.graphql", "a.graphql", "sub/b.graphql", "c"}
	n := 1 + nd.Choice("files", 4)
	k := nd.Choice("which", n)
	more := -1
	if nd.Deep() {
		more = nd.Choice("other", n)
	}
	var l []string
	for i := 0; i < n; i++ {
		t := []string{"type A { f: Int }\nextend type A { g: Int }", "extend type A { h: Int }\nenum A { X }", "schema { query: A }\nextend schema { mutation: A }\ntype Z", "directive @d on FIELD"}[i]
		if i == k || i == more {
			p := []string{"\ufeff", "\n", " \t", "# c\n", "\r\n\r\n", ",", "\"\"\"\nd\n\"\"\"\n", "\ufeff# c\n", "#\r"}[nd.Choice("prefix", 9)]
			t = p + []string{"type N", "scalar N directive @N on FIELD", "enum N { N } type Y { N: N } input N { N: N }"}[nd.Choice("declarations", 3)]
			t = gen.Text(t, nd.BytesOf("name", 1, "ABz"))
		}
		l = append(l, t)
	}
	union(names[:n], l)
}

// H_U02_broken: Bounds: 1..3 files, one of them at any place with one of 7 texts that do not parse or any text of up to 2 (thorough 3) bytes, read in any order.
func H_U02_broken() {
	names := []string{"a.graphql", "b.graphql", "c.graphql"}
	n := 1 + nd.Choice("files", 3)
	k := nd.Choice("broken", n)
	var l []string
	for i := 0; i < n; i++ {
		t := []string{"type A", "enum E { X }"}[i%2]
		if i == k {
			if c := nd.Choice("text", len(broken)+1); c < len(broken) {
				t = broken[c]
			} else {
				t = nd.Bytes("any", nd.Choice("any length", tier(3, 4)))
			}
		}
		l = append(l, t)
	}
	union(names[:n], l)
}
