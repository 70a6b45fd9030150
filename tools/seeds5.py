import sys; from seedlib import build
from seeds1 import C,R,LE,LX,IN,LI,LC,CC,U
from seeds3 import imp
S=[]
def seed(id,prop,edits,needs,breaks,**k): S.append(dict(id=id,prop=prop,edits=edits,needs=needs,breaks=breaks,**k))
seed('c24_required_list','C24',[(C,"""			//input field added to the type
			if nf.Type.NonNull {""","""			//input field added to the type
			if nf.Type.NonNull && (nf.Type.Elem == nil || nf.Type.Elem.NonNull) {""")],
"a new required input field whose type is a list of nullable elements","it is only Dangerous although every client that sends the input object breaks",
cli="""echo 'input I { a: Int }' > o.graphql; echo 'input I { a: Int b: [Int]! }' > n.graphql; cmp o.graphql n.graphql; [ $rc = 1 ] || fail "$(cat out)" """)
seed('c24_moved_member','C24',[(C,"""		first.Types = append(append([]string{}, first.Types...), ext.Types...)
""","""		if len(first.Directives) == len(ext.Directives) {
			first.Types = append(append([]string{}, first.Types...), ext.Types...)
		}
""")],
"a union extended in two blocks, the second with a directive; a member of the second block is removed","nothing is reported",
cli="""printf 'extend union U @k = A\nextend union U @k = B | C' > o.graphql; printf 'extend union U @k = A\nextend union U @k = B' > n.graphql; cmp o.graphql n.graphql; [ $rc = 1 ] || fail "$(cat out)" """)
seed('c24_loc_count','C24',[(C,"""		if !found {
			changes = append(changes, &Change{
				changeType:       DirectiveLocationRemoved,""","""		if !found && len(od.Locations) > 1 {
			changes = append(changes, &Change{
				changeType:       DirectiveLocationRemoved,""")],
"a directive with one location, which is replaced by another","the lost location is not reported",
cli="""echo 'directive @d on FIELD' > o.graphql; echo 'directive @d on OBJECT' > n.graphql; cmp o.graphql n.graphql; [ $rc = 1 ] || fail "$(cat out)" """)
seed('c25_kind','C25',[(C,"""			if oArg.DefaultValue.String() != nArg.DefaultValue.String() {
				changes = append(changes, &Change{
					changeType:       FieldArgumentDefaultChanged,""","""			if oArg.DefaultValue.String() != nArg.DefaultValue.String() || oArg.DefaultValue != nil && oArg.DefaultValue.Kind != nArg.DefaultValue.Kind {
				changes = append(changes, &Change{
					changeType:       FieldArgumentDefaultChanged,""")],
"a default that is a string in one version and the same block string in the other","a changed default is reported",
cli="""echo 'type T { f(a: String = "x"): Int }' > o.graphql; printf 'type T { f(a: String = \"\"\"x\"\"\"): Int }' > n.graphql; cmp o.graphql n.graphql; grep -q 'No changes' out || fail "$(cat out)" """)
seed('c25_same_line','C25',[(C,"""			od := oDirs.ForName(nd.Name)
			if od == nil {
				changes = append(changes, &Change{""","""			od := oDirs.ForName(nd.Name)
			if od == nil && len(changes) > 0 && changes[len(changes)-1].position.Line == nd.Position.Line {
				continue // one report per line will do
			}
			if od == nil {
				changes = append(changes, &Change{""")],
"two directives added on one line","only the first is reported; on lines of their own both are",
cli="""echo 'type T { f: Int }' > o.graphql; echo 'type T @a @b { f: Int }' > n.graphql; printf 'type T @a\n@b { f: Int }' > m.graphql; cmp o.graphql n.graphql; a=$(count added); cmp o.graphql m.graphql; [ $a = $(count added) ] || fail "$(cat out)" """)
seed('l17_mid','L17',[(IN,"""strings.HasPrefix(token.Value, "#lint-")""","""strings.Contains(token.Value, "#lint-")"""),
(LI,"`^#\\s*(lint-[^\\s ]+)(\\s.*)?$`","`#\\s*(lint-[^\\s ]+)(\\s.*)?$`")],
"an ordinary comment that quotes a lint command after other text","it is obeyed",
cli="""printf '# do not write #lint-disable type-desc\nscalar A\n' > s.graphql; lint -f s.graphql -r type-desc; [ $rc = 1 ] || fail "$(cat out)" """)
seed('l17_lf_lines','L17',[(IN,"""				pos:   token.Pos,
""","""				pos:   ast.Position{Line: 1 + strings.Count(source.Input[:token.Pos.Start], "\\n")},
""")],
"a file with lone CR as line ends and a lint comment","the comment is taken to be on line 1",
cli="""printf '#lint-disable type-desc\rscalar A\r#lint-enable type-desc\rscalar B\r' > s.graphql; lint -f s.graphql -r type-desc; [ $(count description) = 1 ] || fail "$(cat out)" """)
seed('l17_one_per_line','L17',[(LI,"""		if shouldApplyRule {
			filteredErrors""","""		if n := len(filteredErrors); n > 0 && filteredErrors[n-1].Rule == lintErr.Rule && filteredErrors[n-1].Line == errorLine && filteredErrors[n-1].Column+8 > lintErr.Column {
			continue // close enough to the one before
		}
		if shouldApplyRule {
			filteredErrors""")],
"two errors of one rule less than 8 columns apart","the second is dropped; on lines of their own both are there",
cli="""echo 'enum E { A B }' > s.graphql; lint -f s.graphql -r enum-desc; [ $(count description) = 2 ] || fail "$(cat out)" """)
if __name__=='__main__': build([s for s in S if s],sys.argv[1:])
