import sys; from seedlib import build
C='pkg/compare/compare.go'; R='pkg/linter/rules.go'; LE='pkg/linter/lint_error.go'
LX='cmd/linter/lexer/lexer.go'; IN='cmd/linter/inline_lint_config.go'; LI='cmd/linter/linter.go'; LC='cmd/linter/lint_cmd.go'
CC='cmd/compare/compare_cmd.go'; U='utils/util.go'
S=[]
def seed(id,prop,edits,needs,breaks,**k): S.append(dict(id=id,prop=prop,edits=edits,needs=needs,breaks=breaks,**k))
seed('c02_deep_nonnull','C02',[(C,"""	if isListType(otyp) {
		//if they're both lists, make sure underlying types are compatible
		return isListType(ntyp) && isSafeChangeForFieldType(otyp.Elem, ntyp.Elem)
	}
	return false
}

func isSafeChangeForInputValue""","""	if isListType(otyp) {
		//if they're both lists, make sure underlying types are compatible
		if isListType(ntyp) && isListType(otyp.Elem) && isListType(ntyp.Elem) {
			return isSafeChangeForFieldType(otyp.Elem.Elem, ntyp.Elem.Elem)
		}
		return isListType(ntyp) && isSafeChangeForFieldType(otyp.Elem, ntyp.Elem)
	}
	return false
}

func isSafeChangeForInputValue""")],
"a field whose type is a list of lists with the inner list's non-null marker dropped ([[T]!] -> [[T]])",
"losing the non-null marker of an inner list is reported NonBreaking",
cli='''echo 'type Query { a: [[Int]!] }' > o.graphql; echo 'type Query { a: [[Int]] }' > n.graphql
cmp o.graphql n.graphql; [ $rc = 1 ] || fail "expected a breaking change, status $rc"''')
seed('c03_elem_name','C03',[(C,"""		//moving from non-nullable to nullable is safe change
		return otyp.NamedType == ntyp.NamedType""","""		//moving from non-nullable to nullable is safe change
		return otyp.Name() == ntyp.Name()""")],
"an input position whose type goes from a non-null named type to a list of that same named type (Int! -> [Int])",
"wrapping an input type into a list while dropping non-null is reported NonBreaking",
cli='''echo 'input Q { a: Int! }' > o.graphql; echo 'input Q { a: [Int] }' > n.graphql
cmp o.graphql n.graphql; [ $rc = 1 ] || fail "expected a breaking change, status $rc"''')
seed('c04_ext_only_new_base','C04',[(C,"""		ot := oldSchemaDefs.ForName(nt.Name)
		if ot == nil {
			msg := fmt.Sprintf("Type '%s' was added", nt.Name)""","""		ot := oldSchemaDefs.ForName(nt.Name)
		if ot != nil && ot.Kind != nt.Kind && isExtended {
			ot = nil
		}
		if ot == nil {
			msg := fmt.Sprintf("Type '%s' was added", nt.Name)""")],
"an extension of one name whose kind differs between the versions",
"a re-kinded extended type is also reported as added",
cli='''echo 'extend type T { a: Int }' > o.graphql; echo 'extend input T { a: Int }' > n.graphql
cmp o.graphql n.graphql; [ $(count "was added") = 0 ] || fail "re-kinded type reported as added"''')
seed('c05_prefix_field','C05',[(C,"""		nf := nDef.Fields.ForName(of.Name)
		oDep := of.Directives.ForName(deprecatedDirective)
		if nf == nil {
			//Removing a field is a breaking""","""		nf := nDef.Fields.ForName(of.Name)
		oDep := of.Directives.ForName(deprecatedDirective)
		if nf == nil && oDep != nil && of.Type.NonNull {
			continue
		}
		if nf == nil {
			//Removing a field is a breaking""")],
"removal of a field that is deprecated and has a non-null type",
"that removal is not reported",
cli='''echo 'type Q { a: Int! @deprecated b: Int }' > o.graphql; echo 'type Q { b: Int }' > n.graphql
cmp o.graphql n.graphql; [ $rc = 1 ] || fail "expected a breaking change, status $rc"''')
seed('c06_list_arg','C06',[(C,"""			if nArg.Type.NonNull {
				changes = append(changes, &Change{
					changeType:       FieldArgumentAdded,""","""			if nArg.Type.NonNull && nArg.Type.NamedType != "" {
				changes = append(changes, &Change{
					changeType:       FieldArgumentAdded,""")],
"an added argument of non-null list type",
"it is reported Dangerous instead of Breaking",
cli='''echo 'type Q { a: Int }' > o.graphql; echo 'type Q { a(x: [Int]!): Int }' > n.graphql
cmp o.graphql n.graphql; [ $rc = 1 ] || fail "expected a breaking change, status $rc"''')
seed('c07_input_added_first','C07',[(C,"""	for _, nf := range nDef.Fields {
		if oDef.Fields.ForName(nf.Name) == nil {
			//input field added to the type
			if nf.Type.NonNull {""","""	for _, nf := range nDef.Fields {
		if oDef.Fields.ForName(nf.Name) == nil {
			//input field added to the type
			if nf.Type.NonNull && len(oDef.Fields) > 0 {""")],
"an input object that had no fields before (an extension that only carried a directive) gains a required field",
"it is reported Dangerous instead of Breaking",
cli='''echo 'input Q @d' > o.graphql; echo 'input Q @d { a: Int! }' > n.graphql
cmp o.graphql n.graphql; [ $rc = 1 ] || fail "expected a breaking change, status $rc"''')
seed('c08_sorted_merge','C08',[(C,"""	for _, nv := range nDef.EnumValues {
		ov := oDef.EnumValues.ForName(nv.Name)
		if ov == nil {""","""	for i, nv := range nDef.EnumValues {
		ov := oDef.EnumValues.ForName(nv.Name)
		if i < len(oDef.EnumValues) && strings.EqualFold(oDef.EnumValues[i].Name, nv.Name) {
			ov = oDef.EnumValues[i]
		}
		if ov == nil {"""),(C,'''	"sort"
''','''	"sort"
	"strings"
''')],
"an enum value whose only difference is the case of letters, at the same place in the list",
"the added value is not reported",
cli='''echo 'enum E { A b }' > o.graphql; echo 'enum E { A B }' > n.graphql
cmp o.graphql n.graphql; [ $(count "was added to enum") = 1 ] || fail "addition not reported"''')
seed('c09_iface_count','C09',[(C,"""	for _, nInt := range nDef.Interfaces {
		found = false""","""	for _, nInt := range nDef.Interfaces {
		found = len(oDef.Interfaces) == 1 && len(nDef.Interfaces) == 1""")],
"an object type that implements exactly one interface in both versions, but another one",
"the newly implemented interface is not reported",
cli='''printf 'interface A {a: Int} interface B {a:Int} type T implements A {a:Int}' > o.graphql; printf 'interface A {a: Int} interface B {a:Int} type T implements B {a:Int}' > n.graphql
cmp o.graphql n.graphql; [ $(count "object type implements") = 1 ] || fail "addition not reported"''')
seed('c10_loc_count','C10',[(C,"""	//location changed
	found := false""","""	//location changed
	if len(od.Locations) == len(nd.Locations) && len(od.Locations) > 0 && od.Locations[0] == nd.Locations[0] && od.IsRepeatable != nd.IsRepeatable {
		return changes
	}
	found := false""")],
"repeatable changes together with a location swap after the first",
"the location changes are not reported",
cli='''echo 'directive @d on OBJECT | ENUM' > o.graphql; echo 'directive @d repeatable on OBJECT | UNION' > n.graphql
cmp o.graphql n.graphql; [ $rc = 1 ] || fail "expected a breaking change, status $rc"''')
seed('c11_repeat_subset','C11',[(C,"""					if len(od.Arguments) == len(nd.Arguments) {""","""					if len(od.Arguments) <= len(nd.Arguments) {""")],
"a repeated directive one of whose applications gains an argument",
"the changed application is not reported",
cli='''echo 'type Q @d(a: 1) @d(a: 2) { a: Int }' > o.graphql; echo 'type Q @d(a: 1) @d(a: 2, b: 3) { a: Int }' > n.graphql
cmp o.graphql n.graphql; [ $(count "was changed on") = 1 ] || fail "changed application not reported"''')
seed('c13_reason_len','C13',[(C,"""		if oReason != nil && nReason != nil && oReason.Value.String() != nReason.Value.String() {
			changes = append(changes, &Change{
				changeType:       EnumValueDeprecationReasonChanged,""","""		if oReason != nil && nReason != nil && len(oReason.Value.Raw) != len(nReason.Value.Raw) {
			changes = append(changes, &Change{
				changeType:       EnumValueDeprecationReasonChanged,""")],
"an enum value whose deprecation reason changes to a text of the same length",
"the changed reason is not reported",
cli='''echo 'enum E { A @deprecated(reason: "abc") }' > o.graphql; echo 'enum E { A @deprecated(reason: "abd") }' > n.graphql
cmp o.graphql n.graphql; [ $(count "deprecation reason changed") = 1 ] || fail "not reported"''')
seed('c14_raw_default','C14',[(C,"""	if of.DefaultValue.String() != nf.DefaultValue.String() {""","""	if oV, nV := of.DefaultValue, nf.DefaultValue; (oV == nil) != (nV == nil) || oV != nil && (oV.Kind != nV.Kind || oV.Raw != nV.Raw) {""")],
"an input field whose default is a list or an object, changed inside",
"the changed default is not reported",
cli='''echo 'input Q { a: [Int] = [1, 2] }' > o.graphql; echo 'input Q { a: [Int] = [1, 3] }' > n.graphql
cmp o.graphql n.graphql; [ $(count "default value changed") = 1 ] || fail "not reported"''')
seed('c15_descr_skip','C15',[(C,"""		if ot.Kind == ast.InputObject && nt.Kind == ast.InputObject {
			changes = append(changes, changeInInputFields(ot, nt)...)
		}""","""		if ot.Kind == ast.InputObject && nt.Kind == ast.InputObject {
			inputChanges := changeInInputFields(ot, nt)
			changes = append(changes, inputChanges...)
			if len(inputChanges) > 1 {
				continue
			}
		}""")],
"an input object with two or more member changes and a changed description",
"the description change is hidden by the member changes",
cli='''echo '"x" input Q { a: Int b: Int }' > o.graphql; echo '"y" input Q { a: String b: String }' > n.graphql
cmp o.graphql n.graphql; [ $(count "description changed") = 1 ] || fail "not reported"''')
seed('c16_text_order','C16',[(C,"""		return changes[i].position.Line < changes[j].position.Line""","""		return getPosition(changes[i]) < getPosition(changes[j])""")],
"two changes of one file on lines with a different number of digits",
"changes are printed in textual rather than numeric line order",
cli='''printf 'type Q {\\na: Int\\nb: Int\\nc: Int\\nd: Int\\ne: Int\\nf: Int\\ng: Int\\nh: Int\\ni: Int\\nj: Int\\nk: Int\\n}' > o.graphql; printf 'type Q {\\na: Int!\\nb: Int\\nc: Int\\nd: Int\\ne: Int\\nf: Int\\ng: Int\\nh: Int\\ni: Int\\nj: Int!\\nk: Int\\n}' > n.graphql
cmp o.graphql n.graphql; first=$(grep "type changed" out | head -1); case "$first" in *Q.a*) ;; *) fail "order: $first";; esac''')
seed('c17_reason_nil','C17',[(C,"""			if oReason != nil && nReason != nil && oReason.Value.String() != nReason.Value.String() {
			changeType""","")] if False else [(C,"""		nReason := nDep.Arguments.ForName("reason")
		if oReason != nil && nReason != nil && oReason.Value.String() != nReason.Value.String() {
			changeType := FieldDeprecationReasonChanged""","""		nReason := nDep.Arguments.ForName("reason")
		if (oReason != nil || nReason != nil) && oReason.Value.String() != nReason.Value.String() {
			changeType := FieldDeprecationReasonChanged""")],
"a deprecated field of which only one version gives a reason",
"comparing the schemas crashes",
cli='''echo 'type Q { a: Int @deprecated }' > o.graphql; echo 'type Q { a: Int @deprecated(reason: "x") }' > n.graphql
cmp o.graphql n.graphql; [ $rc = 0 ] || fail "status $rc"''')
seed('c19_exit_count','C19',[(CC,"""					exitStatus |= 1
""","""					exitStatus |= errorCount
"""),],
"a number of breaking changes other than 1 (in particular a multiple of 256, where the shell sees success)",
"the exit status is the number of breaking changes instead of 1",
cli='''echo 'type Q { a: Int b: Int c: Int}' > o.graphql; echo 'type Q { c: Int}' > n.graphql
cmp o.graphql n.graphql; [ $rc = 1 ] || fail "status $rc"''')
seed('c19_only_breaking_flag','C19',[(CC,"""					errorCount = compare.ReportBreakingChanges(changeCriticalityMap[compare.Breaking], !excludeFilePath)
				} else {""","""					errorCount = compare.ReportBreakingChanges(changeCriticalityMap[compare.Breaking], !excludeFilePath)
					if excludeFilePath && errorCount == len(changes) {
						errorCount--
					}
				} else {""")],
"-b and -e together and nothing but breaking changes",
"the printed count and, for one change, the exit status are wrong",
cli='''echo 'type Q { a: Int b: Int}' > o.graphql; echo 'type Q { b: Int}' > n.graphql
cmp o.graphql n.graphql -b -e; [ $rc = 1 ] || fail "status $rc"''')
seed('c20_default_swap','C20',[(C,"""message:          fmt.Sprintf("Argument '%s' default value changed from '%s' to '%s' in directive '@%s' ", oArg.Name, oArg.DefaultValue.String(), nArg.DefaultValue.String(), od.Name),""",
"""message:          fmt.Sprintf("Argument '%s' default value changed from '%s' to '%s' in directive '@%s' ", oArg.Name, oArg.DefaultValue.String(), oArg.DefaultValue.String(), od.Name),""")],
"a directive argument whose default value changes",
"the message shows the old value twice and never the new one",
cli='''echo 'directive @d(a: Int = 1) on OBJECT' > o.graphql; echo 'directive @d(a: Int = 2) on OBJECT' > n.graphql
cmp o.graphql n.graphql; [ $(count "'1'.*'2'") = 1 ] || fail "values not in the message"''')
seed('c12_subscription','C12',[(C,"""		newSubscription := getOperationForName(newSchemaDefs, ast.Subscription)
		changes = append(changes, changesInSchemaOperation(nil, newSubscription, ast.Subscription)...)
		return changes""","""		newSubscription := getOperationForName(newSchemaDefs, ast.Subscription)
		if newMutation == nil {
			changes = append(changes, changesInSchemaOperation(nil, newSubscription, ast.Subscription)...)
		}
		return changes""")],
"a schema block appears in the new version with both mutation and subscription",
"the added subscription root is not reported",
cli='''echo 'type Q { a: Int }' > o.graphql; echo 'type Q { a: Int } schema { query: Q mutation: Q subscription: Q }' > n.graphql
cmp o.graphql n.graphql; [ $(count "Schema subscription root") = 1 ] || fail "not reported"''')
if __name__=='__main__': build(S,sys.argv[1:])
