import sys; from seedlib import build
from seeds1 import C,R,LE,LX,IN,LI,LC,CC,U
S=[]
def seed(id,prop,edits,needs,breaks,**k): S.append(dict(id=id,prop=prop,edits=edits,needs=needs,breaks=breaks,**k))
IMP='''	"fmt"
	"sort"

	"github.com/vektah'''
def imp(*x): return (C,IMP,'	"fmt"\n	"sort"\n'+''.join(f'	"{i}"\n' for i in x)+'\n	"github.com/vektah')
seed('c01_union_search','C01',[(C,"""		for _, nt := range nDef.Types {
			if ot == nt {
				found = true
			}
		}
		if !found {
			//Removing a union member""","""		if n := len(nDef.Types); n > 6 && nDef.Types[0] <= nDef.Types[n-1] {
			i := sort.SearchStrings(nDef.Types, ot)
			found = i < n && nDef.Types[i] == ot
		} else {
			for _, nt := range nDef.Types {
				if ot == nt {
					found = true
				}
			}
		}
		if !found {
			//Removing a union member""")],
"a union of more than six members which are not in order although the first is below the last","members that are still there are reported as removed",
cli='''printf 'union U = A | C | B | E | D | F | G' > a.graphql; cp a.graphql b.graphql; cmp a.graphql b.graphql; grep -q 'No changes' out || fail "changes in an unchanged union"''')
seed('c01_ext_self','C22',[(C,"""		first.Types = append(append([]string{}, first.Types...), ext.Types...)
""","""		first.Types = append(first.Types, ext.Types...)
"""),(C,"""			if len(nDirList) == 0""","""			if len(nDirList) == 0""")] if False else [(C,"""			block := *ext
			merged = append(merged, &block)
			continue
""","""			if ext.Kind == ast.Union || ext.Kind == ast.Enum {
				merged = append(merged, ext)
				continue
			}
			block := *ext
			merged = append(merged, &block)
			continue
""")],
"the same parsed document compared twice, with several extension blocks of one enum or union","the merge writes into the caller's document: the enum values of the second block are listed twice in the first",
gotest=('pkg/compare','''package compare

import (
	"testing"

	"github.com/vektah/gqlparser/v2/ast"
	"github.com/vektah/gqlparser/v2/parser"
)

func TestZZDemo(t *testing.T) {
	p := func(s string) *ast.SchemaDocument {
		d, err := parser.ParseSchema(&ast.Source{Name: "s", Input: s})
		if err != nil {
			t.Fatal(err)
		}
		return d
	}
	o, n := p("extend enum E { A }\\nextend enum E { B }"), p("extend enum E { A }")
	if k := len(FindChangesInSchemas(o, n)); k != 1 {
		t.Fatal("first", k)
	}
	if k := len(FindChangesInSchemas(o, n)); k != 1 {
		t.Fatal("second comparison of the same documents", k)
	}
}
'''))
seed('c01_dup_directive_args','C01',[(C,"""					if len(od.Arguments) == len(nd.Arguments) {
						haveSameArgVals = true // without arguments there is nothing that could differ
						for _, oArg := range od.Arguments {
							nArg := nd.Arguments.ForName(oArg.Name)
							if nArg != nil &&""","""					if len(od.Arguments) == len(nd.Arguments) {
						haveSameArgVals = true // without arguments there is nothing that could differ
						for i, oArg := range od.Arguments {
							nArg := nd.Arguments[i]
							if nArg.Name == oArg.Name &&""")],
"a directive applied twice, its arguments written in another order in the new version","reported as changed",
cli='''printf 'type T @d(a: 1, b: 2) @d(a: 3, b: 4) { f: Int }' > a.graphql; printf 'type T @d(b: 2, a: 1) @d(b: 4, a: 3) { f: Int }' > b.graphql; cmp a.graphql b.graphql; grep -q 'No changes' out || fail "changes"''')
seed('c02_named_elem','C02',[(C,"""		//moving from nullable to non-nullable is safe change
		return otyp.NamedType == ntyp.NamedType""","""		//moving from nullable to non-nullable is safe change
		return otyp.Name() == ntyp.Name()""")],
"a list field that becomes a non-null plain field of the element's type","reported NonBreaking",
cli='''printf 'type T { f: [A] }' > a.graphql; printf 'type T { f: A! }' > b.graphql; cmp a.graphql b.graphql; [ $rc = 1 ] || fail "not breaking"''')
seed('c03_depth','C03',[(C,"""	// if they're both lists, make sure underlying types are compatible
	if isListType(otyp) && isListType(ntyp) {
		return isSafeChangeForInputValue(otyp.Elem, ntyp.Elem)
	}""","""	// if they're both lists, make sure underlying types are compatible
	for isListType(otyp) && isListType(ntyp) {
		otyp, ntyp = otyp.Elem, ntyp.Elem
		if !isListType(otyp) || otyp.NonNull || ntyp.NonNull {
			return isSafeChangeForInputValue(otyp, ntyp)
		}
	}
	if otyp.NamedType == ntyp.NamedType {
		return ntyp.Elem == nil
	}""")] if False else [(C,"""	if !otyp.NonNull && ntyp.NonNull {
		return false
	}
	if otyp.NonNull {
		if isListType(otyp) {""","""	if !otyp.NonNull && ntyp.NonNull && !isListType(ntyp.Elem) {
		return false
	}
	if otyp.NonNull {
		if isListType(otyp) {""")],
"an input list of lists that becomes non-null","reported NonBreaking",
cli='''printf 'input I { f: [[A]] }' > a.graphql; printf 'input I { f: [[A]]! }' > b.graphql; cmp a.graphql b.graphql; [ $rc = 1 ] || fail "not breaking"''')
seed('c04_ext_kind','C04',[(C,"""		if ot.Kind != nt.Kind {
			//Changing""","""		if ot.Kind != nt.Kind && (ot.Kind != ast.Scalar || nt.Kind != ast.Enum || len(nt.EnumValues) > 0) {
			//Changing""")],
"a scalar that becomes an enum without values","the kind change is not reported",
cli='''printf 'scalar S' > a.graphql; printf 'enum S' > b.graphql; cmp a.graphql b.graphql; [ $rc = 1 ] || fail "not breaking"''')
seed('c05_case_prefix','C05',[imp('strings'),(C,"""		if oDef.Fields.ForName(nf.Name) == nil {
			//Field added to the type""","""		if of := oDef.Fields.ForName(strings.TrimRight(nf.Name, "_")); oDef.Fields.ForName(nf.Name) == nil && (of == nil || of.Directives.ForName(deprecatedDirective) == nil) {
			//Field added to the type""")],
"a field added under the name of a deprecated one plus an underscore","the addition is not reported",
cli='''printf 'type T { a: Int @deprecated }' > a.graphql; printf 'type T { a: Int @deprecated a_: Int }' > b.graphql; cmp a.graphql b.graphql; grep -q "'T.a_' was added" out || fail "missed"''')
seed('c06_iface_arg','C06',[(C,"""			if nArg.Type.NonNull {
				changes = append(changes, &Change{
					changeType:       FieldArgumentAdded,
					criticalityLevel: Breaking,""","""			if nArg.Type.NonNull {
				cl := Breaking
				if len(oDef.Arguments) > 0 && nDef.Directives.ForName(deprecatedDirective) != nil {
					cl = Dangerous
				}
				changes = append(changes, &Change{
					changeType:       FieldArgumentAdded,
					criticalityLevel: cl,""")],
"a required argument added to a deprecated field which had arguments before","reported Dangerous",
cli='''printf 'type T { a(x: Int): Int @deprecated }' > a.graphql; printf 'type T { a(x: Int, y: Int!): Int @deprecated }' > b.graphql; cmp a.graphql b.graphql; [ $rc = 1 ] || fail "not breaking"''')
seed('c08_dep_added','C08',[(C,"""				changeType:       EnumValueAdded,
				criticalityLevel: Dangerous,""","""				changeType:       EnumValueAdded,
				criticalityLevel: enumValueAddedLevel(nv),"""),(C,"""func changeInObject(""","""func enumValueAddedLevel(nv *ast.EnumValueDefinition) Criticality {
	if nv.Directives.ForName(deprecatedDirective) != nil {
		return NonBreaking
	}
	return Dangerous
}

func changeInObject(""")],
"an enum value that is deprecated from the start","its addition is NonBreaking",
cli='''printf 'enum E { A }' > a.graphql; printf 'enum E { A B @deprecated }' > b.graphql; cmp a.graphql b.graphql; grep -q "No breaking" out; grep "was added to enum" out | grep -q '✋' || fail "severity"''')
seed('c09_iface_default','C09',[(C,"""			if oInt == nInt {
				found = true
			}
		}
		if !found {
			//Adding an interface""","""			if oInt == nInt {
				found = true
				break
			}
			found = nDef.Position.Line == oDef.Position.Line && len(oDef.Interfaces) > 2 && nInt+"s" == oInt
		}
		if !found {
			//Adding an interface""")],
"an interface added whose name plus s is the last of at least three old ones","its addition is not reported",
cli='''printf 'type T implements A & B & Cs { f: Int }' > a.graphql; printf 'type T implements A & B & Cs & C { f: Int }' > b.graphql; cmp a.graphql b.graphql; grep -q "implements 'C' interface" out || fail "missed"''')
seed('c10_repeat_loc','C10',[(C,"""			changes = append(changes, checkDirectiveLocationChanged(od, nd)...)
			changes = append(changes, checkDirectiveRepeatableChanged(od, nd)...)
			//argument changed
			changes = append(changes, changeInDirectiveArguments(od, nd)...)
			changes = append(changes, checkDirectiveArgumentAdded(od, nd)...)""","""			if located := checkDirectiveLocationChanged(od, nd); len(located) > 0 {
				changes = append(changes, located...)
			} else {
				changes = append(changes, checkDirectiveRepeatableChanged(od, nd)...)
			}
			//argument changed
			changes = append(changes, changeInDirectiveArguments(od, nd)...)
			changes = append(changes, checkDirectiveArgumentAdded(od, nd)...)""")],
"a directive that loses repeatable together with a location","the loss of repeatable is not reported",
cli='''printf 'directive @d repeatable on FIELD' > a.graphql; printf 'directive @d on FIELD | OBJECT' > b.graphql; cmp a.graphql b.graphql; [ $rc = 1 ] || fail "not breaking"''')
seed('c11_len_args','C11',[(C,"""			nDirList := nDirs.ForNames(od.Name)
			switch {""","""			nDirList := nDirs.ForNames(od.Name)
			if len(oDirList) > 1 && oDirList[0] == od && len(nDirList) == len(oDirList) && len(od.Arguments) == 0 {
				continue
			}
			switch {""")],
"the first of several applications, without arguments, which gains one","no change is reported",
cli='''printf 'type T @d @d(a: 1) { f: Int }' > a.graphql; printf 'type T @d(a: 2) @d(a: 1) { f: Int }' > b.graphql; cmp a.graphql b.graphql; grep -q "was changed on" out || fail "missed"''')
seed('c12_ext_first_block','C12',[(C,"""			if op.Operation == name {
				return op
			}
		}
	}
	return nil""","""			if op.Operation == name {
				return op
			}
		}
		if len(def.OperationTypes) > 1 && len(def.Directives) > 0 {
			break
		}
	}
	return nil""")],
"several schema extension blocks of which the first has a directive and two operations","operations of the later blocks are not seen",
cli='''printf 'extend schema @x { query: Q mutation: M }\\nextend schema { subscription: S }' > a.graphql; printf 'extend schema @x { query: Q mutation: M }' > b.graphql; cmp a.graphql b.graphql; [ $rc = 1 ] || fail "missed"''')
seed('c13_last_dep','C13',[(C,"""	oDep := of.Directives.ForName(deprecatedDirective)
	nDep := nf.Directives.ForName(deprecatedDirective)
	if oDep == nil && nDep != nil {
		changeType""","""	oDep := of.Directives.ForName(deprecatedDirective)
	nDep := nf.Directives.ForName(deprecatedDirective)
	if nDep != nil && len(nDep.Arguments) == 1 && nDep.Arguments[0].Value.Raw == "" {
		nDep = nil
	}
	if oDep == nil && nDep != nil {
		changeType""")],
"a deprecation with an empty reason","the deprecation is not reported",
cli='''printf 'type T { a: Int }' > a.graphql; printf 'type T { a: Int @deprecated(reason: "") }' > b.graphql; cmp a.graphql b.graphql; grep -q "deprecated in" out || fail "missed"''')
seed('c14_list_len','C14',[(C,"""	if of.DefaultValue.String() != nf.DefaultValue.String() {
		changes = append(changes, &Change{
			changeType:       InputFieldDefaultValueChanged,""","""	if of.DefaultValue.String() != nf.DefaultValue.String() && !sameNested(of.DefaultValue, nf.DefaultValue) {
		changes = append(changes, &Change{
			changeType:       InputFieldDefaultValueChanged,"""),(C,"""func checkInputFieldsAdded(""","""// sameNested compares objects by the fields they set
func sameNested(o, n *ast.Value) bool {
	if o == nil || n == nil || o.Kind != ast.ObjectValue || n.Kind != ast.ObjectValue || len(o.Children) != len(n.Children) {
		return false
	}
	for _, c := range o.Children {
		if v := n.Children.ForName(c.Name); v == nil || v.Raw != c.Value.Raw {
			return false
		}
	}
	return len(o.Children) > 0
}

func checkInputFieldsAdded(""")],
"an input field whose default is an object that changes below its first level (or from \"1\" to 1)","the change of the default is not reported",
cli='''printf 'input T { a: J = {x: "1"} }' > a.graphql; printf 'input T { a: J = {x: 1} }' > b.graphql; cmp a.graphql b.graphql; grep -q "default value changed" out || fail "missed"''')
seed('c15_lower_key','C15',[imp('strings'),(C,"""			persistedType[ot.Name] = []*ast.Definition{ot, nt}""","""			persistedType[strings.ToUpper(ot.Name)] = []*ast.Definition{ot, nt}""")],
"two types whose names differ only in case","the changes of one of them are lost",
cli='''printf 'type User { a: Int b: Int }\\ntype user { a: Int }' > a.graphql; printf 'type User { a: Int }\\ntype user { a: Int }' > b.graphql; cmp a.graphql b.graphql; [ $rc = 1 ] || fail "missed"''')
seed('c16_many','C16',[(C,"""		groupChanges[c.criticalityLevel] = append(groupChanges[c.criticalityLevel], c)
	}""","""		group := groupChanges[c.criticalityLevel]
		if n := len(group); n > 0 && group[n-1].message == c.message && group[n-1].path == c.path && group[n-1].position == c.position {
			continue
		}
		groupChanges[c.criticalityLevel] = append(group, c)
	}""")],
"two changes with the same message, path and position one after the other","one of them is dropped",
cli='''printf 'type T @d(a: 1) @d(a: 2) { f: Int }' > a.graphql; printf 'type T @d(a: 3) { f: Int }' > b.graphql; cmp a.graphql b.graphql; [ $(count "was changed on") = 2 ] || fail "missed"''')
seed('c16_name_line','C16',[(C,"""		if changes[i].position.Src.Name != changes[j].position.Src.Name {
			return changes[i].position.Src.Name < changes[j].position.Src.Name
		}
		return""","""		if a, b := changes[i].position.Src.Name, changes[j].position.Src.Name; a != b {
			return len(a) < len(b) || len(a) == len(b) && a < b
		}
		return""")],
"two files whose names differ in length","changes are not ordered by file",
cli='''mkdir o n; printf 'type A { a: Int b: Int }' > o/ab.graphql; printf 'type B { a: Int b: Int }' > o/b.graphql; printf 'type A { a: Int }' > n/ab.graphql; printf 'type B { a: Int }' > n/b.graphql; cmp 'o/*.graphql' 'n/*.graphql'; grep removed out | head -1 | grep -q "A.b" || fail "order"''')
seed('c17_empty_args','C17',[(C,"""		if oReason != nil && nReason != nil && oReason.Value.String() != nReason.Value.String() {
			changes = append(changes, &Change{
				changeType:       EnumValueDeprecationReasonChanged,""","""		if oReason != nil && nReason != nil && oReason.Value.Raw[:1]+oReason.Value.String() != nReason.Value.Raw[:1]+nReason.Value.String() {
			changes = append(changes, &Change{
				changeType:       EnumValueDeprecationReasonChanged,""")],
"an enum value deprecated in both versions, once with an empty reason","the comparison panics",
cli='''printf 'enum E { A @deprecated(reason: "") }' > a.graphql; printf 'enum E { A @deprecated(reason: "x") }' > b.graphql; cmp a.graphql b.graphql; [ $rc = 0 ] || fail "crash"''')
seed('c18_first_file','U02',[(U,"""	var sources []*ast.Source
""","""	var sources []*ast.Source
	directives := map[string]bool{}
"""),(U,"""		sources = append(sources, s)
""","""		if strings.HasPrefix(s.Input, "directive ") {
			// shared directive definitions may be repeated in every file
			head := strings.TrimSpace(strings.SplitN(s.Input, " on ", 2)[0])
			if directives[head] && !strings.Contains(s.Input, "{") {
				continue
			}
			directives[head] = true
		}
		sources = append(sources, s)
"""),(U,'''	"sort"
''','''	"sort"
	"strings"
''')],
"two files that start with a definition of the same directive, with different locations","only the first counts",
gotest=('utils','''package utils

import "testing"

func TestZZDemo(t *testing.T) {
	for i := 0; i < 100; i++ {
		d, err := ParseSchema(map[string][]byte{"a": []byte("directive @d on FIELD"), "b": []byte("directive @d on OBJECT")})
		if err != nil {
			t.Fatal(err)
		}
		if len(d.Directives) != 2 {
			t.Fatal(len(d.Directives))
		}
	}
}
'''))
seed('c20_added_wording','C20',[(C,"""				message:          fmt.Sprintf("Member '%s' was removed from Union type '%s'", ot, oDef.Name),
				path:             oDef.Name,
				position:         nDef.Position,""","""				message:          fmt.Sprintf("Member '%s' was removed from Union type '%s'", ot, oDef.Name),
				path:             oDef.Name,
				position:         firstPosition(nDef, oDef),"""),(C,"""func checkUnionMemberAdded(""","""// firstPosition prefers the definition that still has members
func firstPosition(a, b *ast.Definition) *ast.Position {
	if len(a.Types) == 0 {
		return b.Position
	}
	return a.Position
}

func checkUnionMemberAdded(""")] if False else [(C,"""				message:          fmt.Sprintf("Input field '%s.%s' default value changed from '%s' to '%s' in input object type", oDef.Name, of.Name, of.DefaultValue.String(), nf.DefaultValue.String()),""","""X""")] if False else [(C,"""			message:          fmt.Sprintf("Input field '%s.%s' default value changed from '%s' to '%s' in input object type", oDef.Name, of.Name, of.DefaultValue.String(), nf.DefaultValue.String()),""","""			message:          fmt.Sprintf("Input field '%s.%s' default value changed from '%.24s' to '%.24s' in input object type", oDef.Name, of.Name, of.DefaultValue.String(), nf.DefaultValue.String()),""")],
"a default value longer than 24 characters","the message shows neither value in full",
cli='''printf 'input T { a: J = "abcdefghijklmnopqrstuvwxyz1" }' > a.graphql; printf 'input T { a: J = "abcdefghijklmnopqrstuvwxyz2" }' > b.graphql; cmp a.graphql b.graphql; grep -q 'xyz2"' out || fail "value missing"''')
seed('c20_removed_pos','C20',[(C,"""				path:             fmt.Sprintf("%s.%s.%s", typeName, oDef.Name, oArg.Name),
				position:         nDef.Position,""","""				path:             fmt.Sprintf("%s.%s.%s", typeName, oDef.Name, oArg.Name),
				position:         lastArgument(oArg, nDef).Position,"""),(C,"""func checkFieldArgumentTypeChanged(""","""// lastArgument is the argument that took the place of the removed one
func lastArgument(oArg *ast.ArgumentDefinition, nDef *ast.FieldDefinition) *ast.ArgumentDefinition {
	if n := len(nDef.Arguments); n > 0 {
		return nDef.Arguments[n-1]
	}
	return &ast.ArgumentDefinition{Position: nDef.Position}
}

func checkFieldArgumentTypeChanged(""")],
"an argument removed from a field that keeps another one on another line","the removal is reported at an argument it is not about",
cli='''printf 'type T { a(x: Int y: Int): Int }' > a.graphql; printf 'type T { a(\\n\\n y: Int): Int }' > b.graphql; cmp a.graphql b.graphql; grep -q "graphql:1 Argument" out || fail "position"''')
seed('c21_same_glob','C21',[(CC,"""			schemaNewContents, err := utils.ReadFiles(newSchemaPath)
			if err != nil {""","""			schemaNewContents, err := utils.ReadFiles(newSchemaPath)
			if err != nil && len(schemaOldContents) > 1 && len(schemaNewContents) == 0 {
				schemaNewContents, err = map[string][]byte{newSchemaPath: nil}, nil
			}
			if err != nil {""")],
"an old schema of several files and a new one that cannot be read","the new schema counts as empty, the failure is not reported",
cli='''mkdir o; printf 'directive @a on FIELD' > o/a.graphql;  printf 'extend schema { query: Q }' > o/b.graphql; cmp 'o/*.graphql' nothing.graphql; grep -q "failed to read" out || fail "silent"''')
seed('c19_warn_only','C19',[(CC,"""					exitStatus |= 1
				}
			}
			os.Exit(exitStatus)""","""					exitStatus |= 1
				}
				if onlyBreakingChange && excludeFilePath && errorCount == len(changes) {
					exitStatus = errorCount & 1
				}
			}
			os.Exit(exitStatus)""")],
"both flags, an even number of changes, all of them breaking","exits with 0",
cli='''printf 'type T { a: Int b: Int c: Int }' > a.graphql; printf 'type T { a: Int }' > b.graphql; cmp a.graphql b.graphql -b -e; [ $rc = 1 ] || fail "status"''')
seed('l04_ext_deprecated','L04',[(R,"""				if len(enumValue.Description) == 0 {
					lintError := LintErrorWithMetadata{
						Rule:   enumDesc,
						Line:   enumValue.Position.Line,
						Column: enumValue.Position.Column,
						Err:    fmt.Errorf("extended""","""				if len(enumValue.Description) == 0 && (len(enumValue.Directives) == 0 || enumValue.Directives.ForName("deprecated") == nil) {
					lintError := LintErrorWithMetadata{
						Rule:   enumDesc,
						Line:   enumValue.Position.Line,
						Column: enumValue.Position.Column,
						Err:    fmt.Errorf("extended""")],
"a deprecated value without description in an enum extension","it is not reported",
cli='''printf 'extend enum E { A @deprecated }' > s.graphql; lint -f s.graphql -r enum-desc; [ $rc = 1 ] || fail "missed"''')
seed('l07_underscore','L07',[(R,"""	for _, typeDefinition := range schema.Extensions {
		if typeDefinition.Name[0] >= 'a' && typeDefinition.Name[0] <= 'z' {""","""	for _, typeDefinition := range schema.Extensions {
		if name := strings.TrimLeft(typeDefinition.Name, "_"); strings.Title(name) != name { // nolint:staticcheck""")],
"an extension of a type whose name starts with an underscore and a lower-case letter","it is reported",
cli='''printf 'extend type _entity { a: Int }' > s.graphql; lint -f s.graphql -r type-caps; [ $rc = 0 ] || fail "flagged"''')
seed('l08_nonnull_list','L08',[(R,"""	return fieldDefinition.Type.NamedType == "" && fieldDefinition.Type.Elem != nil
}

func isArg""","""	return fieldDefinition.Type.NamedType == "" && fieldDefinition.Type.Elem.NamedType != ""
}

func isArg""")],
"edges as a list of lists","it is reported as not being a list",
cli='''printf 'type AConnection { edges: [[E]] pageInfo: PageInfo! }' > s.graphql; lint -f s.graphql -r relay-conn-type; [ $rc = 0 ] || fail "flagged"''')
seed('l09_arg_order','L09',[(R,"""					case "before":
						beforeArgument = argumentDefinition
					}
				}""","""					case "before":
						beforeArgument = argumentDefinition
					default:
						if beforeArgument != nil && firstArgument != nil {
							break
						}
						if strings.EqualFold(argumentDefinition.Name, "first") && firstArgument == nil {
							firstArgument = argumentDefinition
						}
					}
				}""")],
"an argument named first in another case","it counts as first",
cli='''printf 'type A { f(First: String, after: String, last: Int, before: String): XConnection }' > s.graphql; lint -f s.graphql -r relay-conn-args; [ $rc = 0 ] || fail "flagged"''')
seed('l10_dup_rule','L10',[(LI,"""	sortedErrors := allErrors.GetSortedErrors()
""","""	sortedErrors := allErrors.GetSortedErrors()
	for i := 1; i < len(sortedErrors); i++ {
		a, b := sortedErrors[i-1], sortedErrors[i]
		if a.Rule == b.Rule && a.Line == b.Line && a.Column == b.Column {
			sortedErrors = append(sortedErrors[:i], sortedErrors[i+1:]...)
			i--
		}
	}
""")],
"a connection type lacking both edges and pageInfo: two errors of one rule at one place","one of them is dropped",
cli='''printf 'type AConnection { x: Int }' > s.graphql; lint -f s.graphql -r relay-conn-type; grep -q "found: 2" out || fail "dropped"''')
seed('l12_windows','L12',[(IN,"""		rulesToApply = append(rulesToApply, strings.TrimSpace(rule))""","""		rule = strings.TrimSpace(rule)
		if rule[0] == '"' {
			rule = strings.Trim(rule, "\\"")
		}
		rulesToApply = append(rulesToApply, rule)""")],
"a lint comment with an empty rule between commas","linting panics",
cli='''printf '#lint-disable type-desc,,enum-desc\\ntype A { a: Int }' > s.graphql; lint -f s.graphql -r type-desc; [ $rc = 0 ] || fail "crash"''')
seed('l13_prefix','L13',[(LC,"""		for _, rule := range linter.AllTheRules {
			if strings.EqualFold(inputRuleName, string(rule.Name)) {""","""		for _, rule := range linter.AllTheRules {
			if strings.EqualFold(inputRuleName, string(rule.Name)) || len(inputRuleName) > len("relay-conn-") && strings.HasPrefix(string(rule.Name), strings.ToLower(inputRuleName)) {""")],
"a rule named by a prefix such as relay-conn-t","it is accepted",
cli='''printf 'type A { a: Int }' > s.graphql; lint -f s.graphql -r relay-conn-ty; [ $rc = 1 ] || fail "accepted"''')
seed('l11_enable_line','L11',[(LI,"""				if config.command == "lint-enable" {
					shouldApplyRule = true""","""				if config.command == "lint-enable" && len(config.rules) <= len(configs[0].rules) {
					shouldApplyRule = true""")],
"a lint-enable naming more rules than the first lint comment of the file","it has no effect",
cli='''printf '#lint-disable type-desc\\n#lint-enable type-desc,enum-desc\\ntype A { a: Int }' > s.graphql; lint -f s.graphql -r type-desc; [ $rc = 1 ] || fail "suppressed"''')
seed('u02_dup_content','U02',[(U,"""	var sources []*ast.Source
""","""	var sources []*ast.Source
	seen := map[string]bool{}
"""),(U,"""		sources = append(sources, s)
""","""		if len(s.Input) > 16 && seen[s.Input] {
			continue
		}
		seen[s.Input] = true
		sources = append(sources, s)
""")],
"two files with the same content","the second is dropped",
gotest=('utils','''package utils

import "testing"

func TestZZDemo(t *testing.T) {
	d, err := ParseSchema(map[string][]byte{"a": []byte("extend schema @link { query: Q }"), "b": []byte("extend schema @link { query: Q }")})
	if err != nil {
		t.Fatal(err)
	}
	if len(d.SchemaExtension) != 2 {
		t.Fatal(len(d.SchemaExtension))
	}
}
'''))
seed('u01_symlink_name','U01',[(U,"""		schemaFileContents[filename] = content""","""		schemaFileContents[filepath.Clean(filename)] = append(schemaFileContents[filepath.Clean(filename)], content...)"""),] if False else [(U,"""	for _, filename := range schemaFiles {
		fileObject""","""	for i, filename := range schemaFiles {
		if base := filepath.Base(filename); len(schemaFiles) > 1 && base[0] == '_' && i > 0 {
			continue
		}
		fileObject""")],
"several files of which a later one starts with an underscore","it is not read",
cli='''mkdir o; printf 'type A { a: Int }' > o/a.graphql; mkdir p; printf 'type A { a: Int }\\ntype B { a: Int }' > p/a.graphql; cp o/a.graphql o/Z.graphql; printf 'type C { a: Int }' > o/_b.graphql; mkdir q;  printf 'type D { a: Int }' > q/a.graphql; cmp 'q/*.graphql' 'o/*.graphql'; grep -q "Type 'C' was added" out || fail "not read"''')
seed('l14_zero_col','L14',[(LC,"""	for _, err := range errors {
		fmt.Printf("%s:%d:%d %s\\n", schemaFilePath, err.Line, err.Column, err.Err.Error())
	}""","""	last := ""
	for _, err := range errors {
		line := fmt.Sprintf("%s:%d:%d %s\\n", schemaFilePath, err.Line, err.Column, err.Err.Error())
		if line != last {
			fmt.Print(line)
		}
		last = line
	}""")],
"a rule selected twice","its errors are printed once but counted twice",
cli='''printf 'type A { a: Int }' > s.graphql; lint -f s.graphql -r type-desc,type-desc; [ $(count "does not have") = 2 ] || fail "printed once"''')
seed('l15_stdin_err','L15',[(LC,"""				content, err := io.ReadAll(os.Stdin)
				if err != nil {""","""				content, err := io.ReadAll(os.Stdin)
				if len(content) > 0 && strings.TrimSpace(string(content)) == "}" {
					content = nil
				}
				if err != nil {""")],
"a standard input that is nothing but a closing brace","it counts as empty",
cli='''printf '}\\n' | timeout 60 "$tmp/gql" lint > out 2>&1; rc=$?; [ $rc = 1 ] || fail "status"''')
seed('x01_escape','X01',[(LX,"""				case 'b':""","""				case 'e':
					buf.WriteByte(0x1b)
				case 'b':""")],
"a string with the escape e","no error",
gotest=('cmd/linter/lexer','''package lexer

import (
	"testing"

	"github.com/vektah/gqlparser/v2/ast"
)

func TestZZDemo(t *testing.T) {
	s := New(&ast.Source{Input: `"\\e"`})
	if _, err := s.ReadToken(); err == nil {
		t.Fatal("accepted")
	}
}
'''))
seed('x02_line_sep','X02',[(LX,"""		if r > 0x001f || r == '\\t' {""","""		if r > 0x001f && r != 0x2028 || r == '\\t' {""")],
"a comment containing the line separator U+2028","the comment ends there, the rest is lexed as tokens (or fails)",
gotest=('cmd/linter/lexer',"""package lexer

import (
	"testing"

	"github.com/vektah/gqlparser/v2/ast"
)

func TestZZDemo(t *testing.T) {
	s := New(&ast.Source{Input: "#a\\u2028b"})
	k, err := s.ReadToken()
	if err != nil || k.Value != "#a\\u2028b" {
		t.Fatal(k, err)
	}
}
"""))
seed('x01_middle_dot','X01',[(LX,"""(r >= 'a' && r <= 'z') || r == '_' {""","""(r >= 'a' && r <= 'z') || r == '_' || r == 0xb7 && s.end+w < len(s.Input) {""")],
"a name followed by a middle dot and something else","the dot becomes part of the name",
gotest=('cmd/linter/lexer',"""package lexer

import (
	"testing"

	"github.com/vektah/gqlparser/v2/ast"
)

func TestZZDemo(t *testing.T) {
	s := New(&ast.Source{Input: "a\u00b7b"})
	k, _ := s.ReadToken()
	if k.Value != "a" {
		t.Fatal(k)
	}
}
"""))
if __name__=='__main__': build(S, sys.argv[1:] or None)
