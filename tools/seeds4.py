import sys; from seedlib import build
from seeds1 import C,R,LE,LX,IN,LI,LC,CC,U
from seeds3 import imp
S=[]
def seed(id,prop,edits,needs,breaks,**k): S.append(dict(id=id,prop=prop,edits=edits,needs=needs,breaks=breaks,**k))
seed('c18_dir_map','C18',[(C,"""	var changes []*Change
	for _, od := range oDirs {
		nd := nDirs.ForName(od.Name)
""","""	var changes []*Change
	byName := map[string]*ast.DirectiveDefinition{}
	for _, od := range oDirs {
		byName[od.Name] = od
	}
	described := map[string]bool{}
	for _, od := range byName {
		nd := nDirs.ForName(od.Name)
"""),(C,"""			if od.Description != nd.Description {
				changes = append(changes, &Change{
					changeType:       DirectiveDescriptionChanged,""","""			if od.Description != nd.Description && !described[nd.Description] {
				described[nd.Description] = true
				changes = append(changes, &Change{
					changeType:       DirectiveDescriptionChanged,""")],
"two directive definitions that get the same new description","only one is reported, and which one depends on map iteration order",
cli='''printf 'directive @a on FIELD directive @b on FIELD' > o.graphql; printf '"x" directive @a on FIELD "x" directive @b on FIELD' > n.graphql
for i in $(seq 40); do cmp o.graphql n.graphql; sort out | md5sum; done > sums; [ $(sort -u sums | wc -l) = 1 ] || fail "differs from run to run"''')
seed('c23_group_map','C23',[(C,"""	groupChanges := map[Criticality][]*Change{}
	for _, c := range changes {
		if _, ok := groupChanges[c.criticalityLevel]; !ok {
			groupChanges[c.criticalityLevel] = []*Change{}
		}
		groupChanges[c.criticalityLevel] = append(groupChanges[c.criticalityLevel], c)
	}
""","""	groupChanges := map[Criticality][]*Change{}
	byPath := map[string][]*Change{}
	for _, c := range changes {
		byPath[c.path] = append(byPath[c.path], c)
	}
	for _, list := range byPath {
		for _, c := range list {
			groupChanges[c.criticalityLevel] = append(groupChanges[c.criticalityLevel], c)
		}
	}
""")],
"several changes of one severity on one line","their order differs from run to run",
cli='''printf 'enum A { B C D E F }' > o.graphql; printf 'enum A { G }' > n.graphql
for i in $(seq 40); do cmp o.graphql n.graphql; md5sum < out; done > sums; [ $(sort -u sums | wc -l) = 1 ] || fail "differs from run to run"''')
seed('c23_added_map','C23',[(C,"""	var changes []*Change
	for _, nt := range newSchemaDefs {
		ot := oldSchemaDefs.ForName(nt.Name)
		if ot == nil {
""","""	var changes []*Change
	added := map[*ast.Definition]bool{}
	for _, nt := range newSchemaDefs {
		added[nt] = oldSchemaDefs.ForName(nt.Name) == nil
	}
	for nt, isNew := range added {
		if isNew {
""")],
"several types added on one line","their order differs from run to run",
cli='''printf 'type Z' > o.graphql; printf 'type Z type A type B type C type D' > n.graphql
for i in $(seq 40); do cmp o.graphql n.graphql; md5sum < out; done > sums; [ $(sort -u sums | wc -l) = 1 ] || fail "differs from run to run"''')
seed('c22_sort_args','C22',[(C,"""		if od.Name != deprecatedDirective {
			nDirList := nDirs.ForNames(od.Name)
""","""		if od.Name != deprecatedDirective {
			nDirList := nDirs.ForNames(od.Name)
			for _, nd := range nDirList {
				sort.Slice(nd.Arguments, func(i, j int) bool { return nd.Arguments[i].Name < nd.Arguments[j].Name })
			}
""")],
"a directive applied with arguments not in alphabetical order","comparing reorders the arguments in the caller's document",
gotest=('pkg/compare','''package compare

import (
	"testing"

	"github.com/vektah/gqlparser/v2/ast"
	"github.com/vektah/gqlparser/v2/parser"
)

func TestZZDemo(t *testing.T) {
	d, err := parser.ParseSchema(&ast.Source{Name: "a", Input: "type A @k(b: 1, a: 2) { f: Int }"})
	if err != nil {
		t.Fatal(err)
	}
	FindChangesInSchemas(d, d)
	if d.Definitions[0].Directives[0].Arguments[0].Name != "b" {
		t.Fatal("reordered")
	}
}
'''))
seed('c22_desc_norm','C22',[(C,"""func FindChangesInSchemas(oldSchema *ast.SchemaDocument, newSchema *ast.SchemaDocument) []*Change {
	var changes []*Change
""","""func FindChangesInSchemas(oldSchema *ast.SchemaDocument, newSchema *ast.SchemaDocument) []*Change {
	var changes []*Change
	if len(oldSchema.Schema) > 1 {
		// several schema blocks count as one
		for _, more := range oldSchema.Schema[1:] {
			oldSchema.Schema[0].OperationTypes = append(oldSchema.Schema[0].OperationTypes, more.OperationTypes...)
		}
	}
""")],
"an old schema with two schema blocks","comparing adds the operations of the second block to the first one in the caller's document",
gotest=('pkg/compare','''package compare

import (
	"testing"

	"github.com/vektah/gqlparser/v2/ast"
	"github.com/vektah/gqlparser/v2/parser"
)

func TestZZDemo(t *testing.T) {
	d, err := parser.ParseSchema(&ast.Source{Name: "a", Input: "schema { query: Q } schema { mutation: M }"})
	if err != nil {
		t.Fatal(err)
	}
	FindChangesInSchemas(d, d)
	if len(d.Schema[0].OperationTypes) != 1 {
		t.Fatal("changed")
	}
}
'''))
seed('c22_memo','C22',[(C,"""// changeInTypes change in al the types
""","""var kindChanges = map[string]bool{}

// changeInTypes change in al the types
"""),(C,"""func checkTypeAdded(oldSchemaDefs ast.DefinitionList, newSchemaDefs ast.DefinitionList, isExtended bool) []*Change {
	var changes []*Change
	for _, nt := range newSchemaDefs {
		ot := oldSchemaDefs.ForName(nt.Name)
		if ot == nil {
""","""func checkTypeAdded(oldSchemaDefs ast.DefinitionList, newSchemaDefs ast.DefinitionList, isExtended bool) []*Change {
	var changes []*Change
	for _, nt := range newSchemaDefs {
		ot := oldSchemaDefs.ForName(nt.Name)
		if ot != nil {
			kindChanges[nt.Name] = true
		}
		if ot == nil && !(isExtended && kindChanges[nt.Name]) {
""")],
"an extension added for a type that an earlier comparison found in both versions","a second comparison of the same documents does not report it",
gotest=('pkg/compare','''package compare

import (
	"testing"

	"github.com/vektah/gqlparser/v2/ast"
	"github.com/vektah/gqlparser/v2/parser"
)

func TestZZDemo(t *testing.T) {
	p := func(s string) *ast.SchemaDocument {
		d, err := parser.ParseSchema(&ast.Source{Name: "a", Input: s})
		if err != nil {
			t.Fatal(err)
		}
		return d
	}
	o, n := p("type B"), p("type B extend type A { f: Int }")
	a := len(FindChangesInSchemas(o, n))
	FindChangesInSchemas(n, n)
	if b := len(FindChangesInSchemas(o, n)); a != b {
		t.Fatal(a, b)
	}
}
'''))
seed('l16_cfg_cache','L16',[(LI,"""	inlineLintConfigs := extractInlineLintConfiguration(source)
""","""	key := filepath.Base(fileName) + strings.SplitN(schemaFileContents, "\\n", 2)[0]
	inlineLintConfigs, ok := configCache[key]
	if !ok {
		inlineLintConfigs = extractInlineLintConfiguration(source)
		configCache[key] = inlineLintConfigs
	}
"""),(LI,"""type lintCommand string
""","""type lintCommand string

var configCache = map[string][]InlineLintConfig{}
"""),(LI,"""	"os"
""","""	"os"
	"path/filepath"
""")],
"two files of the same base name and first line in different folders, with different lint comments","the comments of the first apply to the second",
cli='''mkdir a b; printf '"d" enum E {\\n x #lint-disable-line enum-caps\\n}' > a/s.graphql; printf '"d" enum E {\\n x\\n}' > b/s.graphql; lint -f '*/s.graphql' -r enum-caps; [ $rc = 1 ] || fail "suppressed in the wrong file"''')
seed('l16_found','L16',[(R,"""func AvailableRulesWithDescription() string {""","""var reported = map[string]bool{}

func AvailableRulesWithDescription() string {"""),] if False else [(LI,"""		if shouldApplyRule {
			filteredErrors = append(filteredErrors, lintErr)
		}
""","""		key := fmt.Sprintf("%s:%d:%d:%s", lintErr.Rule, lintErr.Line, lintErr.Column, lintErr.Err)
		if shouldApplyRule && (!reported[key] || string(lintErr.Rule) != "enum-desc") {
			reported[key] = true
			filteredErrors = append(filteredErrors, lintErr)
		}
"""),(LI,"""type lintCommand string
""","""type lintCommand string

var reported = map[string]bool{}
""")],
"the same enum value without description at the same place in two files","it is reported in one of them only",
cli='''printf 'enum E {\\n X\\n}' > s.graphql; printf 'enum E {\\n X\\n}\\ntype A { f: Int }' > t.graphql; lint -f '*.graphql' -r enum-desc; [ $(count 'graphql:2') = 2 ] || fail "$(cat out)"''')
seed('l16_goroutine','L16',[(LC,"""	errorCount := 0
""","""	errorCount := 0
	byContent := map[string]string{}
	for filename, schemaFileContent := range schemaFileContents {
		byContent[string(schemaFileContent)] = filename
	}
"""),(LC,"""			errorPresenter(filename, lintErrors)
""","""			if len(lintErrors) < 3 {
				errorPresenter(filename, lintErrors)
			} else {
				errorPresenter(byContent[string(schemaFileContents[filename])], lintErrors)
			}
""")],
"two files with the same content and at least 3 errors","the errors are attributed to one of them, which differs from run to run",
cli='''printf 'enum E {\\n X Y Z\\n}' > s.graphql; cp s.graphql t.graphql; lint -f '*.graphql' -r enum-desc; [ $(count '^s.graphql:') = 3 ] || fail "$(cat out)"''')
seed('u03_glob_text','U03',[(U,"""	if len(schemaFiles) == 0 {
		return nil, fmt.Errorf("matching file does not exist at path:%s", schemaFilePath)
""","""	if len(schemaFiles) == 0 {
		return nil, fmt.Errorf("matching file does not exist at path:%s", filepath.Dir(schemaFilePath))
""")],
"a path that matches nothing","the message names the folder instead of the path given",
cli='''lint -f 'nope.graphql'; grep -q nope out || fail "$(cat out)"''')
seed('u03_wrap','U03',[(U,"""			return nil, fmt.Errorf("failed to read file:%s on path:%s, error:%v", filename, schemaFilePath, err)""","""			return nil, fmt.Errorf("failed to read file:%s on path:%s, error:%v", schemaFiles[len(schemaFileContents)/2], schemaFilePath, err)""")],
"a folder among several matching files, after at least one good file","the message blames another file",
cli='''echo 'type A' > a.graphql; echo 'type B' > b.graphql; mkdir c.graphql; lint -f '*.graphql'; grep -q "file:c.graphql" out || fail "$(cat out)"''')
seed('u04_early','U04',[(U,"""		if len(content) == 0 {
""","""		if len(content) == 0 && len(schemaFiles) > 1 {
			if again, openErr := os.Open(filename); openErr == nil { // it may just be being written
				content, err = io.ReadAll(again)
				if err != nil {
					return nil, err
				}
			}
		}
		if len(content) == 0 {
""")],
"an empty file among several","it is opened again and stays open",
gotest=('utils','''package utils

import (
	"os"
	"path/filepath"
	"strings"
	"testing"
)

func TestZZDemo(t *testing.T) {
	d := t.TempDir()
	for _, f := range []string{"a", "b"} {
		if err := os.WriteFile(filepath.Join(d, f+".graphql"), nil, 0600); err != nil {
			t.Fatal(err)
		}
	}
	if _, err := ReadFiles(d + "/*.graphql"); err != nil {
		t.Fatal(err)
	}
	l, _ := os.ReadDir("/proc/self/fd")
	for _, e := range l {
		if to, err := os.Readlink("/proc/self/fd/" + e.Name()); err == nil && strings.HasPrefix(to, d+"/") {
			t.Fatal("open: " + to)
		}
	}
}
'''))
if __name__=='__main__': build([s for s in S if s],sys.argv[1:])
