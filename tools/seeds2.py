import sys; from seedlib import build
from seeds1 import C,R,LE,LX,IN,LI,LC,CC,U
S=[]
def seed(id,prop,edits,needs,breaks,**k): S.append(dict(id=id,prop=prop,edits=edits,needs=needs,breaks=breaks,**k))
seed('l01_blank_desc','L01',[(R,"""		if len(definition.Description) == 0 {
			lintError := LintErrorWithMetadata{
				Rule:   typeDesc,""","""		if len(definition.Description) == 0 || (definition.BuiltIn || definition.Kind == ast.Union) && strings.HasPrefix(definition.Description, " ") {
			lintError := LintErrorWithMetadata{
				Rule:   typeDesc,""")],
"a union whose description starts with a blank","type-desc flags a type that has a description",
cli='''printf '" x"\\nunion U = A\\n"d" type A { a: Int }' > s.graphql; lint -f s.graphql -r type-desc; [ $rc = 0 ] || fail "flagged"''')
seed('l02_dedupe_args','L02',[(R,"""				for _, argument := range field.Arguments {
					if len(argument.Description) == 0 {
						lintError := LintErrorWithMetadata{
							Rule:   argsDesc,
							Line:   argument.Position.Line,
							Column: argument.Position.Column,
							Err:    fmt.Errorf("argument %s.%s.%s does not have description", definition.Name, field.Name, argument.Name),
						}
						errors = append(errors, lintError)
					}
				}
			}
		}
	}
	return errors""","""				for _, argument := range field.Arguments {
					if len(argument.Description) == 0 && (len(errors) == 0 || errors[len(errors)-1].Line != argument.Position.Line) {
						lintError := LintErrorWithMetadata{
							Rule:   argsDesc,
							Line:   argument.Position.Line,
							Column: argument.Position.Column,
							Err:    fmt.Errorf("argument %s.%s.%s does not have description", definition.Name, field.Name, argument.Name),
						}
						errors = append(errors, lintError)
					}
				}
			}
		}
	}
	return errors""")],
"two undescribed arguments on one line in a type extension","only the first is reported",
cli='''printf 'extend type A { a(x: Int, y: Int): Int }' > s.graphql; lint -f s.graphql -r args-desc; [ $(count "does not have") = 2 ] || fail "missed"''')
seed('l03_input_ext','L03',[(R,"""	for _, definition := range schema.Extensions {
		for _, fieldDefinition := range definition.Fields {
			if len(fieldDefinition.Description) == 0 {""","""	for _, definition := range schema.Extensions {
		if !definition.IsCompositeType() {
			continue
		}
		for _, fieldDefinition := range definition.Fields {
			if len(fieldDefinition.Description) == 0 {""")],
"an extension of an input object with an undescribed field","it is not reported",
cli='''printf 'extend input A { a: Int }' > s.graphql; lint -f s.graphql -r field-desc; [ $(count "does not have") = 1 ] || fail "missed"''')
seed('l05_first_letter','L05',[(R,"""				if strings.ToUpper(enumValue.Name) != enumValue.Name {
					lintError := LintErrorWithMetadata{
						Rule:   enumCaps,
						Line:   enumValue.Position.Line,
						Column: enumValue.Position.Column,
						Err:    fmt.Errorf("extended enum""","""				if strings.ToUpper(enumValue.Name) != enumValue.Name && strings.ToLower(enumValue.Name) != strings.TrimLeft(enumValue.Name, "_") {
					lintError := LintErrorWithMetadata{
						Rule:   enumCaps,
						Line:   enumValue.Position.Line,
						Column: enumValue.Position.Column,
						Err:    fmt.Errorf("extended enum""")],
"an extended enum with a value that is all lower case","it is not reported",
cli='''printf 'extend enum A { ab }' > s.graphql; lint -f s.graphql -r enum-caps; [ $(count "not uppercase") = 1 ] || fail "missed"''') if False else None
seed('l05_title','L05',[(R,"""				if strings.ToUpper(enumValue.Name) != enumValue.Name {
					lintError := LintErrorWithMetadata{
						Rule:   enumCaps,
						Line:   enumValue.Position.Line,
						Column: enumValue.Position.Column,
						Err:    fmt.Errorf("enum""","""				if strings.ToUpper(enumValue.Name) != enumValue.Name && enumValue.Name[len(enumValue.Name)-1] != 'v' {
					lintError := LintErrorWithMetadata{
						Rule:   enumCaps,
						Line:   enumValue.Position.Line,
						Column: enumValue.Position.Column,
						Err:    fmt.Errorf("enum""")],
"an enum value that is not upper case and ends in v","it is not reported",
cli='''printf 'enum A { IPv }' > s.graphql; lint -f s.graphql -r enum-caps; [ $(count "not uppercase") = 1 ] || fail "missed"''')
seed('l06_regex_anchor','L06',[(R,'"^[a-z][a-zA-Z0-9]*$"','"^[a-z][a-zA-Z0-9]*$|^_[a-z]+Z[0-9]$"')],
"a field such as _entZ1","a field name that is not camelCase is accepted",
cli='''printf 'type A { _aZ1: Int }' > s.graphql; lint -f s.graphql -r field-camel; [ $(count "camelcased") = 1 ] || fail "missed"''')
seed('l08_pageinfo_list','L08',[(R,"""!fieldDefinition.Type.NonNull || isFieldListType(fieldDefinition) {""","""!fieldDefinition.Type.NonNull || isFieldListType(fieldDefinition) && !fieldDefinition.Type.Elem.NonNull {""")],
"a pageInfo field of type [PageInfo!]!","it is accepted",
cli='''printf 'type AConnection { edges: [Int] pageInfo: [PageInfo!]! }' > s.graphql; lint -f s.graphql -r relay-conn-type; [ $(count "pageInfo field") = 1 ] || fail "missed"''')
seed('l09_last_nonnull','L09',[(R,"""if isArgListType(lastArgument) || lastArgument.Type.NonNull || lastArgument.Type.Name() != "Int" {""","""if isArgListType(lastArgument) || lastArgument.Type.NonNull && hasBackwardPagination || lastArgument.Type.Name() != "Int" {""")],
"a field with first, after and a non-null last but no before","the non-null last is accepted although forward pagination is complete",
cli='''printf 'type Q { a(first: Int, after: String, last: Int!): AConnection }' > s.graphql; lint -f s.graphql -r relay-conn-args; [ $rc = 1 ] || fail "missed"''')
seed('l10_column_first','L10',[(LE,"""	if e[i].Line > e[j].Line {
		return false
	}
	return e[i].Column < e[j].Column""","""	if e[i].Line > e[j].Line+1 {
		return false
	}
	return e[i].Column < e[j].Column""")],
"errors on adjacent lines whose columns are in the opposite order","they come out of order",
cli='''printf 'type A {\\n       b_b: Int\\n a_a: Int\\n}' > s.graphql; lint -f s.graphql -r field-camel; head -1 out | grep -q b_b || fail "order"''')
seed('l11_same_line','L11',[(LI,"""			if config.pos < errorLine {
				if config.command""","""			if config.pos <= errorLine {
				if config.command""")],
"a lint-disable comment at the end of the line that has the error","the error on that same line is suppressed",
cli='''printf 'type A {\\n a_a: Int #lint-disable field-camel\\n}' > s.graphql; lint -f s.graphql -r field-camel; [ $(count camelcased) = 1 ] || fail "suppressed"''')
seed('l11_contains_substr','L11',[(LI,"""		if strings.EqualFold(string(first), second) {""","""		if strings.EqualFold(string(first), second) || strings.HasPrefix(second, string(first)+" ") {""")],
"a rule name in the comment followed by a blank and more text (field-camel because ...)","the comment applies although it names no such rule",
cli='''printf 'type A {\\n a_a: Int #lint-disable-line field-camel x\\n}' > s.graphql; lint -f s.graphql -r field-camel; [ $(count camelcased) = 1 ] || fail "suppressed"''')
seed('l11_enable_break','L11',[(LI,"""					shouldApplyRule = true
				} else""","""					shouldApplyRule = true
					break
				} else""")],
"lint-disable, lint-enable and lint-disable again of one rule","the second lint-disable is ignored",
cli='''printf '#lint-disable field-camel\\n#lint-enable field-camel\\n#lint-disable field-camel\\ntype A {\\n a_a: Int\\n}' > s.graphql; lint -f s.graphql -r field-camel; [ $(count camelcased) = 0 ] || fail "not suppressed"''')
seed('l13_partial','L13',[(LC,"""		if !matchFound {
			return nil,""","""		if !matchFound && (inputRuleName != "" || len(rulesToApply) == 0) {
			return nil,""")],
"a rule list with an empty name after a valid one (-r type-desc,)","the empty name is accepted",
cli='''printf '"d" type A { a: Int }' > s.graphql; lint -f s.graphql -r "type-desc,"; [ $rc = 1 ] || fail "accepted"''')
seed('l14_last_file','L14',[(LC,"""			errorCount += len(lintErrors)
""","""			errorCount += len(lintErrors)
			if len(lintErrors) > 1 && lintErrors[0].Line == lintErrors[1].Line && lintErrors[0].Column == lintErrors[1].Column {
				errorCount-- // the same place
			}
""")],
"two rules that report an error at one place","the printed total is one too low",
cli='''printf 'type A { a_b: Int }' > s.graphql; lint -f s.graphql -r field-desc,field-camel; [ $(count "found: 2") = 1 ] || fail "total"''')
seed('l15_parse_return','L15',[(LI,"""		fmt.Printf("failed to parse file=%s with error %v", fileName, parseErr)
		os.Exit(1)""","""		fmt.Printf("failed to parse file=%s with error %v", fileName, parseErr)
		if len(strings.TrimSpace(schemaFileContents)) > 1 {
			os.Exit(1)
		}
		return nil""")],
"a file whose only content is one stray character","the file does not parse, yet the command reports no lint errors and status 0",
cli='''printf '}' > s.graphql; lint -f s.graphql; [ $rc = 1 ] || fail "status $rc"''')
seed('x01_crlf_block','X01',[(LX,"""			if s.end+1 < inputLen && s.Input[s.end+1] == '\\n' {
				s.end++
				s.endRunes++
			}

			buf""","""			if s.end+1 < inputLen && s.Input[s.end+1] == '\\n' {
				s.end++
			}

			buf""")],
"a block string with a CR LF line end, and something after it","positions after it differ from the parser's",
gotest=('cmd/linter/lexer','''package lexer
import ("testing";"github.com/vektah/gqlparser/v2/ast";plex "github.com/vektah/gqlparser/v2/lexer")
func TestZZDemo(t *testing.T) {
	src := &ast.Source{Input: "\\"\\"\\"a\\r\\nb\\"\\"\\" type A { a: Int }"}
	a := New(src); b := plex.New(src)
	for i := 0; i < 9; i++ {
		x, _ := a.ReadToken(); y, _ := b.ReadToken()
		if x.Pos.Start != y.Pos.Start || x.Pos.Column != y.Pos.Column || x.Value != y.Value { t.Fatalf("%v %v", x, y) }
	}
}
'''))
seed('x02_tab_comment','X02',[(LX,"""		if r > 0x001f || r == '\\t' {
			s.end += w""","""		if r > 0x001f && r != 0xfeff || r == '\\t' {
			s.end += w""")],
"a comment that contains a byte order mark","the comment ends there and the rest of the line is read as schema text",
gotest=('cmd/linter/lexer','''package lexer
import ("testing";"github.com/vektah/gqlparser/v2/ast")
func TestZZDemo(t *testing.T) {
	a := New(&ast.Source{Input: "#a\\ufeffb\\n"})
	x, _ := a.ReadToken()
	if x.Value != "#a\\ufeffb" { t.Fatalf("%q", x.Value) }
}
'''))
seed('x02_bom_line','X02',[(LX,"""				s.end += 3
				s.endRunes++
			} else""","""				s.end += 3
				if s.end > 3 {
					s.endRunes++
				}
			} else""")],
"a byte order mark at the start of the text","columns on the first line are one too low",
gotest=('cmd/linter/lexer','''package lexer
import ("testing";"github.com/vektah/gqlparser/v2/ast";plex "github.com/vektah/gqlparser/v2/lexer")
func TestZZDemo(t *testing.T) {
	src := &ast.Source{Input: "\\ufefftype"}
	a := New(src); b := plex.New(src)
	x, _ := a.ReadToken(); y, _ := b.ReadToken()
	if x.Pos.Column != y.Pos.Column { t.Fatalf("%v %v", x, y) }
}
'''))
seed('u01_short_read','U01',[(U,"""		content, err := io.ReadAll(fileObject)""","""		content, err := io.ReadAll(io.LimitReader(fileObject, 1<<20))""")],
"a schema file of more than one MiB","the rest of the file is silently ignored",
gotest=('utils','''package utils
import ("testing";"os";"path/filepath";"strings")
func TestZZDemo(t *testing.T) {
	p := filepath.Join(t.TempDir(), "a.graphql")
	text := "type A { a: Int }\\n#" + strings.Repeat("x", 1<<21)
	if err := os.WriteFile(p, []byte(text), 0o600); err != nil { t.Fatal(err) }
	m, err := ReadFiles(p)
	if err != nil || string(m[p]) != text { t.Fatalf("%v %d", err, len(m[p])) }
}
'''))
seed('u01_open_skip','U01',[(U,"""		if fileErr != nil {
			return nil,""","""		if os.IsPermission(fileErr) && len(schemaFiles) > 1 {
			continue
		}
		if fileErr != nil {
			return nil,""")],
"several matched files of which one may not be opened","it is skipped and the rest is returned without an error",
gotest=('utils','''package utils
import ("testing";"os";"path/filepath";"syscall")
func TestZZDemo(t *testing.T) {
	d := t.TempDir()
	os.Chmod(filepath.Dir(d), 0o755); os.Chmod(d, 0o755)
	for _, n := range []string{"a", "b"} { os.WriteFile(filepath.Join(d, n), []byte("type A { a: Int }"), 0o644) }
	os.Chmod(filepath.Join(d, "b"), 0)
	if os.Geteuid() == 0 {
		if err := syscall.Setegid(65534); err != nil { t.Skip() }
		if err := syscall.Seteuid(65534); err != nil { t.Skip() }
		defer syscall.Seteuid(0)
	}
	if m, err := ReadFiles(filepath.Join(d, "*")); err == nil { t.Fatalf("%v", m) }
}
'''))
seed('u02_empty_first','U02',[(U,"""		sources = append(sources, s)""","""		if len(s.Input) > 0 && s.Input[0] == 0xef && len(sources) > 0 {
			s.Name = sources[0].Name
		}
		sources = append(sources, s)""")],
"several files of which one starts with a byte order mark","its definitions are attributed to another file",
gotest=('utils','''package utils
import "testing"
func TestZZDemo(t *testing.T) {
	for i := 0; i < 40; i++ {
		d, err := ParseSchema(map[string][]byte{"a": []byte("type A { a: Int }"), "b": []byte("\\ufefftype B { a: Int }")})
		if err != nil { t.Fatal(err) }
		if p := d.Definitions.ForName("B").Position; p.Src.Name != "b" { t.Fatal(p.Src.Name) }
	}
}
'''))
seed('c21_same_path','C21',[(CC,"""			if len(oldSchemaPath) == 0 || len(newSchemaPath) == 0 {""","""			if len(oldSchemaPath) == 0 && len(newSchemaPath) == 0 {""")],
"only one of the two schema paths is given","the command does not say that it expects two versions",
cli='''echo 'type A { a: Int }' > o.graphql; cmp o.graphql ""; grep -q "expects two" out || fail "$(cat out)"''')
seed('c18_seen_descr','C15',[(C,"""	for _, name := range names {
		ot :=""","""	described := map[string]bool{}
	for _, name := range names {
		ot :="""),(C,"""		if ot.Description != nt.Description {
			changes = append(changes, &Change{
				changeType:       TypeDescriptionChanged,""","""		if ot.Description != nt.Description && !described[ot.Description+nt.Description] {
			described[ot.Description+nt.Description] = true
			changes = append(changes, &Change{
				changeType:       TypeDescriptionChanged,""")],
"two types that get the same new description","only one of them is reported",
cli='''printf 'type A { a: Int } type B { a: Int }' > o.graphql; printf '"x" type A { a: Int } "x" type B { a: Int }' > n.graphql
cmp o.graphql n.graphql; grep "Type 'A'" out | grep -q escription && grep "Type 'B'" out | grep -q escription || fail "$(cat out)"''')
if __name__=='__main__': build([s for s in S if s],sys.argv[1:])
