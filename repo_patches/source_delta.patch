From eab9c7b2ce1c27051b5b62cfd992cf4d579a7828 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:21:30 +0000
Subject: [PATCH 01/17] fix: type-caps misses type names starting with 'a'

The bounds check excluded the letter 'a' (97) itself.
---
 pkg/linter/rules.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pkg/linter/rules.go b/pkg/linter/rules.go
index 56bdc5e..e405c83 100644
--- a/pkg/linter/rules.go
+++ b/pkg/linter/rules.go
@@ -299,7 +299,7 @@ func FieldsAreCamelCased(schema *ast.SchemaDocument) LintErrorsWithMetadata {
 func TypesAreCapitalized(schema *ast.SchemaDocument) LintErrorsWithMetadata {
 	errors := make([]LintErrorWithMetadata, 0)
 	for _, typeDefinition := range schema.Definitions {
-		if typeDefinition.Name[0] > 97 && typeDefinition.Name[0] <= 122 {
+		if typeDefinition.Name[0] >= 'a' && typeDefinition.Name[0] <= 'z' {
 			lintError := LintErrorWithMetadata{
 				Rule:   typeCaps,
 				Line:   typeDefinition.Position.Line,
@@ -311,7 +311,7 @@ func TypesAreCapitalized(schema *ast.SchemaDocument) LintErrorsWithMetadata {
 	}
 	// extended types are not included in schema.definitions but schema.extensions
 	for _, typeDefinition := range schema.Extensions {
-		if typeDefinition.Name[0] > 97 && typeDefinition.Name[0] <= 122 {
+		if typeDefinition.Name[0] >= 'a' && typeDefinition.Name[0] <= 'z' {
 			lintError := LintErrorWithMetadata{
 				Rule:   typeCaps,
 				Line:   typeDefinition.Position.Line,
-- 
2.43.0


From f636c186a44bb12526bd67860e03a2364e2378d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:21:31 +0000
Subject: [PATCH 02/17] fix: enum-desc checks the wrong definition when a type
 name occurs twice

The rule looked every definition up by name, so of two definitions with the
same name the first was checked twice and the second never.
---
 pkg/linter/rules.go | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/pkg/linter/rules.go b/pkg/linter/rules.go
index e405c83..606932a 100644
--- a/pkg/linter/rules.go
+++ b/pkg/linter/rules.go
@@ -228,15 +228,14 @@ func EnumValuesAreAllCaps(schema *ast.SchemaDocument) LintErrorsWithMetadata {
 func EnumValuesHaveDescriptions(schema *ast.SchemaDocument) LintErrorsWithMetadata {
 	errors := make([]LintErrorWithMetadata, 0)
 	for _, definition := range schema.Definitions {
-		typeDefinition := schema.Definitions.ForName(definition.Name)
-		if typeDefinition.Kind == ast.Enum {
-			for _, enumValue := range typeDefinition.EnumValues {
+		if definition.Kind == ast.Enum {
+			for _, enumValue := range definition.EnumValues {
 				if len(enumValue.Description) == 0 {
 					lintError := LintErrorWithMetadata{
 						Rule:   enumDesc,
 						Line:   enumValue.Position.Line,
 						Column: enumValue.Position.Column,
-						Err:    fmt.Errorf("enum value %s.%s does not have description", typeDefinition.Name, enumValue.Name),
+						Err:    fmt.Errorf("enum value %s.%s does not have description", definition.Name, enumValue.Name),
 					}
 					errors = append(errors, lintError)
 				}
-- 
2.43.0


From 08eeca905febf0ee3afeadafb2c7863cce1372cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:42:28 +0000
Subject: [PATCH 03/17] fix: repeated directive without arguments is reported
 as changed

A repeatable directive applied without arguments never matched an identical
application in the new schema, so comparing a schema with itself reported a
Dangerous change.
---
 pkg/compare/compare.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pkg/compare/compare.go b/pkg/compare/compare.go
index e7b66b9..1842a64 100644
--- a/pkg/compare/compare.go
+++ b/pkg/compare/compare.go
@@ -1123,6 +1123,7 @@ func changeInTypeFieldDirectives(oDirs ast.DirectiveList, nDirs ast.DirectiveLis
 				haveSameArgVals := false
 				for _, nd := range nDirList {
 					if len(od.Arguments) == len(nd.Arguments) {
+						haveSameArgVals = true // without arguments there is nothing that could differ
 						for _, oArg := range od.Arguments {
 							nArg := nd.Arguments.ForName(oArg.Name)
 							if nArg != nil && oArg.Value.String() == nArg.Value.String() {
-- 
2.43.0


From c1bdd516a1465fe3279ec20b2db08ea706edc50f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:42:28 +0000
Subject: [PATCH 04/17] fix: removing @deprecated from an enum value is not
 reported

Fields and input fields report it as a Dangerous change; enum values did not
report it at all.
---
 pkg/compare/compare.go | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/pkg/compare/compare.go b/pkg/compare/compare.go
index 1842a64..3368638 100644
--- a/pkg/compare/compare.go
+++ b/pkg/compare/compare.go
@@ -59,6 +59,8 @@ const (
 	EnumValueDeprecationReasonChanged ChangeType = "ENUM_VALUE_DEPRECATION_REASON_CHANGED"
 	// EnumValueDeprecationAdded Enum Value Deprecation Added
 	EnumValueDeprecationAdded ChangeType = "ENUM_VALUE_DEPRECATION_ADDED"
+	// EnumValueDeprecationRemoved Enum Value Deprecation Removed
+	EnumValueDeprecationRemoved ChangeType = "ENUM_VALUE_DEPRECATION_REMOVED"
 	// FieldRemoved Field Removed
 	FieldRemoved ChangeType = "FIELD_REMOVED"
 	// FieldAdded Field Added
@@ -630,6 +632,15 @@ func checkEnumValueDeprecationChanged(oDef *ast.Definition, nv *ast.EnumValueDef
 			position:         nv.Position,
 		})
 	}
+	if oDep != nil && nDep == nil {
+		changes = append(changes, &Change{
+			changeType:       EnumValueDeprecationRemoved,
+			criticalityLevel: Dangerous,
+			message:          fmt.Sprintf("Enum value '%s' deprecation removed in enum '%s' ", ov.Name, oDef.Name),
+			path:             fmt.Sprintf("%s.%s", oDef.Name, ov.Name),
+			position:         nv.Position,
+		})
+	}
 	if oDep != nil && nDep != nil {
 		oReason := oDep.Arguments.ForName("reason")
 		nReason := nDep.Arguments.ForName("reason")
-- 
2.43.0


From 4f808922e703857aef6d3fe03875100ea166ebd0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:42:28 +0000
Subject: [PATCH 05/17] fix: root operations outside the first schema extension
 are ignored

Only the first block was compared, so changes in further 'extend schema' blocks
were missed and reordering the blocks was reported as a change.
---
 pkg/compare/compare.go | 35 +++++++++++++++++++----------------
 1 file changed, 19 insertions(+), 16 deletions(-)

diff --git a/pkg/compare/compare.go b/pkg/compare/compare.go
index 3368638..f65fe5c 100644
--- a/pkg/compare/compare.go
+++ b/pkg/compare/compare.go
@@ -199,38 +199,38 @@ func changeInSchema(oldSchemaDefs ast.SchemaDefinitionList, newSchemaDefs ast.Sc
 		return changes
 	}
 	if len(oldSchemaDefs) > 0 && len(newSchemaDefs) == 0 {
-		oldQuery := getOperationForName(oldSchemaDefs[0].OperationTypes, ast.Query)
+		oldQuery := getOperationForName(oldSchemaDefs, ast.Query)
 		changes = append(changes, changesInSchemaOperation(oldQuery, nil, ast.Query)...)
 
-		oldMutation := getOperationForName(oldSchemaDefs[0].OperationTypes, ast.Mutation)
+		oldMutation := getOperationForName(oldSchemaDefs, ast.Mutation)
 		changes = append(changes, changesInSchemaOperation(oldMutation, nil, ast.Mutation)...)
 
-		oldSubscription := getOperationForName(oldSchemaDefs[0].OperationTypes, ast.Subscription)
+		oldSubscription := getOperationForName(oldSchemaDefs, ast.Subscription)
 		changes = append(changes, changesInSchemaOperation(oldSubscription, nil, ast.Subscription)...)
 		return changes
 	}
 	if len(oldSchemaDefs) == 0 && len(newSchemaDefs) > 0 {
-		newQuery := getOperationForName(newSchemaDefs[0].OperationTypes, ast.Query)
+		newQuery := getOperationForName(newSchemaDefs, ast.Query)
 		changes = append(changes, changesInSchemaOperation(nil, newQuery, ast.Query)...)
 
-		newMutation := getOperationForName(newSchemaDefs[0].OperationTypes, ast.Mutation)
+		newMutation := getOperationForName(newSchemaDefs, ast.Mutation)
 		changes = append(changes, changesInSchemaOperation(nil, newMutation, ast.Mutation)...)
 
-		newSubscription := getOperationForName(newSchemaDefs[0].OperationTypes, ast.Subscription)
+		newSubscription := getOperationForName(newSchemaDefs, ast.Subscription)
 		changes = append(changes, changesInSchemaOperation(nil, newSubscription, ast.Subscription)...)
 		return changes
 	}
 
-	oldQuery := getOperationForName(oldSchemaDefs[0].OperationTypes, ast.Query)
-	newQuery := getOperationForName(newSchemaDefs[0].OperationTypes, ast.Query)
+	oldQuery := getOperationForName(oldSchemaDefs, ast.Query)
+	newQuery := getOperationForName(newSchemaDefs, ast.Query)
 	changes = append(changes, changesInSchemaOperation(oldQuery, newQuery, ast.Query)...)
 
-	oldMutation := getOperationForName(oldSchemaDefs[0].OperationTypes, ast.Mutation)
-	newMutation := getOperationForName(newSchemaDefs[0].OperationTypes, ast.Mutation)
+	oldMutation := getOperationForName(oldSchemaDefs, ast.Mutation)
+	newMutation := getOperationForName(newSchemaDefs, ast.Mutation)
 	changes = append(changes, changesInSchemaOperation(oldMutation, newMutation, ast.Mutation)...)
 
-	oldSubscription := getOperationForName(oldSchemaDefs[0].OperationTypes, ast.Subscription)
-	newSubscription := getOperationForName(newSchemaDefs[0].OperationTypes, ast.Subscription)
+	oldSubscription := getOperationForName(oldSchemaDefs, ast.Subscription)
+	newSubscription := getOperationForName(newSchemaDefs, ast.Subscription)
 	changes = append(changes, changesInSchemaOperation(oldSubscription, newSubscription, ast.Subscription)...)
 
 	return changes
@@ -1290,10 +1290,13 @@ func isWrappingType(typ *ast.Type) bool {
 	return isListType(typ) || isNonNullType(typ)
 }
 
-func getOperationForName(ops ast.OperationTypeDefinitionList, name ast.Operation) *ast.OperationTypeDefinition {
-	for _, op := range ops {
-		if op.Operation == name {
-			return op
+// getOperationForName looks the operation up in all schema definition (or extension) blocks
+func getOperationForName(defs ast.SchemaDefinitionList, name ast.Operation) *ast.OperationTypeDefinition {
+	for _, def := range defs {
+		for _, op := range def.OperationTypes {
+			if op.Operation == name {
+				return op
+			}
 		}
 	}
 	return nil
-- 
2.43.0


From 42d383365c180969815bc68eede3c21d03fca2d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:42:28 +0000
Subject: [PATCH 06/17] fix: an extension hides the changes of the type it
 extends

The pairs of persisted definitions and extensions were kept under the same key,
so with a type both defined and extended only the extension was compared.
---
 pkg/compare/compare.go | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/pkg/compare/compare.go b/pkg/compare/compare.go
index f65fe5c..329914b 100644
--- a/pkg/compare/compare.go
+++ b/pkg/compare/compare.go
@@ -278,15 +278,24 @@ func changesInSchemaOperation(oldOp *ast.OperationTypeDefinition, newOp *ast.Ope
 func changeInTypes(oldSchema *ast.SchemaDocument, newSchema *ast.SchemaDocument) []*Change {
 	var changes []*Change
 	persistedType := map[string][]*ast.Definition{}
+	persistedExtendedType := map[string][]*ast.Definition{}
 	//Check if types added/removed/persisted
 	changes = append(changes, checkTypeRemoved(oldSchema.Definitions, newSchema.Definitions, persistedType, false)...)
 	changes = append(changes, checkTypeAdded(oldSchema.Definitions, newSchema.Definitions, false)...)
 
 	//Check if extended types added/removed/persisted
-	changes = append(changes, checkTypeRemoved(oldSchema.Extensions, newSchema.Extensions, persistedType, true)...)
+	changes = append(changes, checkTypeRemoved(oldSchema.Extensions, newSchema.Extensions, persistedExtendedType, true)...)
 	changes = append(changes, checkTypeAdded(oldSchema.Extensions, newSchema.Extensions, true)...)
 
 	//compare persisted types for changes in fields/directives
+	changes = append(changes, changeInPersistedTypes(persistedType)...)
+	changes = append(changes, changeInPersistedTypes(persistedExtendedType)...)
+	return changes
+}
+
+// changeInPersistedTypes change in the types present in both schemas
+func changeInPersistedTypes(persistedType map[string][]*ast.Definition) []*Change {
+	var changes []*Change
 	for _, defs := range persistedType {
 		ot := defs[0]
 		nt := defs[1]
-- 
2.43.0


From 453628d6d9a5fed42ce1ba1151648536898f9ba6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:42:28 +0000
Subject: [PATCH 07/17] fix: several extensions of one type are compared with
 the wrong block

The last old block was compared with the first new block of the same name, so
comparing a schema with itself reported changes that are not there. All the
blocks extending a type are now compared as one.
---
 pkg/compare/compare.go | 24 ++++++++++++++++++++++--
 1 file changed, 22 insertions(+), 2 deletions(-)

diff --git a/pkg/compare/compare.go b/pkg/compare/compare.go
index 329914b..e0ca9a6 100644
--- a/pkg/compare/compare.go
+++ b/pkg/compare/compare.go
@@ -284,8 +284,9 @@ func changeInTypes(oldSchema *ast.SchemaDocument, newSchema *ast.SchemaDocument)
 	changes = append(changes, checkTypeAdded(oldSchema.Definitions, newSchema.Definitions, false)...)
 
 	//Check if extended types added/removed/persisted
-	changes = append(changes, checkTypeRemoved(oldSchema.Extensions, newSchema.Extensions, persistedExtendedType, true)...)
-	changes = append(changes, checkTypeAdded(oldSchema.Extensions, newSchema.Extensions, true)...)
+	oldExtensions, newExtensions := mergeExtensions(oldSchema.Extensions), mergeExtensions(newSchema.Extensions)
+	changes = append(changes, checkTypeRemoved(oldExtensions, newExtensions, persistedExtendedType, true)...)
+	changes = append(changes, checkTypeAdded(oldExtensions, newExtensions, true)...)
 
 	//compare persisted types for changes in fields/directives
 	changes = append(changes, changeInPersistedTypes(persistedType)...)
@@ -293,6 +294,25 @@ func changeInTypes(oldSchema *ast.SchemaDocument, newSchema *ast.SchemaDocument)
 	return changes
 }
 
+// mergeExtensions combines all extension blocks of a type into one, a type can be extended any number of times
+func mergeExtensions(extensions ast.DefinitionList) ast.DefinitionList {
+	var merged ast.DefinitionList
+	for _, ext := range extensions {
+		first := merged.ForName(ext.Name)
+		if first == nil {
+			block := *ext
+			merged = append(merged, &block)
+			continue
+		}
+		first.Directives = append(append(ast.DirectiveList{}, first.Directives...), ext.Directives...)
+		first.Interfaces = append(append([]string{}, first.Interfaces...), ext.Interfaces...)
+		first.Fields = append(append(ast.FieldList{}, first.Fields...), ext.Fields...)
+		first.Types = append(append([]string{}, first.Types...), ext.Types...)
+		first.EnumValues = append(append(ast.EnumValueList{}, first.EnumValues...), ext.EnumValues...)
+	}
+	return merged
+}
+
 // changeInPersistedTypes change in the types present in both schemas
 func changeInPersistedTypes(persistedType map[string][]*ast.Definition) []*Change {
 	var changes []*Change
-- 
2.43.0


From 81a1a21d7074512511a54a607f6d4aa592e8c1f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:48:59 +0000
Subject: [PATCH 08/17] fix: a '#lint-' comment without a command crashes the
 linter

---
 cmd/linter/inline_lint_config.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/cmd/linter/inline_lint_config.go b/cmd/linter/inline_lint_config.go
index 3b5b8bf..1e2675e 100644
--- a/cmd/linter/inline_lint_config.go
+++ b/cmd/linter/inline_lint_config.go
@@ -50,6 +50,9 @@ func extractInlineLintConfiguration(source *ast.Source) []InlineLintConfig {
 	// Now that we know which lines have lint configs in comments, lets parse them
 	for _, linConfig := range inlineLintConfigs {
 		matchGroups := inlineLintConfigurationRegex.FindStringSubmatch(linConfig.value)
+		if matchGroups == nil { // not a lint command, e.g. "#lint- "
+			continue
+		}
 		switch matchGroups[1] {
 		case string(lintDisable):
 			rulesString := matchGroups[2]
-- 
2.43.0


From 776fcf2292f73dfe5ac0b7610d1ef7f5b5ae83b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:48:59 +0000
Subject: [PATCH 09/17] fix: reporting several changes crashes when one has no
 position

---
 pkg/compare/compare.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pkg/compare/compare.go b/pkg/compare/compare.go
index e0ca9a6..5f2f35f 100644
--- a/pkg/compare/compare.go
+++ b/pkg/compare/compare.go
@@ -1393,6 +1393,9 @@ func ReportNonBreakingChanges(changes []*Change, withFilepath bool) int {
 
 func less(changes []*Change) func(i int, j int) bool {
 	return func(i, j int) bool {
+		if changes[i].position == nil || changes[j].position == nil {
+			return changes[i].position == nil && changes[j].position != nil
+		}
 		if changes[i].position.Src.Name != changes[j].position.Src.Name {
 			return changes[i].position.Src.Name < changes[j].position.Src.Name
 		}
-- 
2.43.0


From 4b3d7c270b89811ef75799139f953e16dff046e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:20:54 +0000
Subject: [PATCH 10/17] fix: the notice about an empty file runs into the first
 error line

---
 utils/util.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/utils/util.go b/utils/util.go
index 264ea87..35eb105 100644
--- a/utils/util.go
+++ b/utils/util.go
@@ -49,7 +49,7 @@ func ReadFiles(schemaFilePath string) (map[string][]byte, error) {
 			return nil, fmt.Errorf("failed to read file:%s on path:%s, error:%v", filename, schemaFilePath, err)
 		}
 		if len(content) == 0 {
-			fmt.Printf("empty file=%s in path=%s", filename, schemaFilePath)
+			fmt.Printf("empty file=%s in path=%s\n", filename, schemaFilePath)
 		}
 		schemaFileContents[filename] = content
 	}
-- 
2.43.0


From 418c5b969f463e4c3388baaab680d150dbb95270 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:24:20 +0000
Subject: [PATCH 11/17] fix: adding repeatable to a directive is described as
 its removal

---
 pkg/compare/compare.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pkg/compare/compare.go b/pkg/compare/compare.go
index 5f2f35f..2013955 100644
--- a/pkg/compare/compare.go
+++ b/pkg/compare/compare.go
@@ -547,7 +547,7 @@ func checkDirectiveRepeatableChanged(od *ast.DirectiveDefinition, nd *ast.Direct
 		changes = append(changes, &Change{
 			changeType:       DirectiveRepeatableAdded,
 			criticalityLevel: NonBreaking,
-			message:          fmt.Sprintf("Repeatable flag was removed from '@%s' directive", od.Name),
+			message:          fmt.Sprintf("Repeatable flag was added to '@%s' directive", od.Name),
 			path:             fmt.Sprintf("@%s", nd.Name),
 			position:         nd.Position,
 		})
-- 
2.43.0


From 221856584f64ce5b0d9fb84d71c465ba167869ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:24:31 +0000
Subject: [PATCH 12/17] fix: a changed root operation is reported without its
 old and new type

---
 pkg/compare/compare.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/pkg/compare/compare.go b/pkg/compare/compare.go
index 2013955..18e7c7b 100644
--- a/pkg/compare/compare.go
+++ b/pkg/compare/compare.go
@@ -251,7 +251,7 @@ func changesInSchemaOperation(oldOp *ast.OperationTypeDefinition, newOp *ast.Ope
 		changes = append(changes, &Change{
 			changeType:       changeType,
 			criticalityLevel: NonBreaking,
-			message:          fmt.Sprintf("Schema %s root has added '%s'", op, newOp.Operation),
+			message:          fmt.Sprintf("Schema %s root has added '%s'", op, newOp.Type),
 			position:         newOp.Position,
 		})
 	}
@@ -259,7 +259,7 @@ func changesInSchemaOperation(oldOp *ast.OperationTypeDefinition, newOp *ast.Ope
 		changes = append(changes, &Change{
 			changeType:       changeType,
 			criticalityLevel: Breaking,
-			message:          fmt.Sprintf("Schema %s root has removed '%s'", op, oldOp.Operation),
+			message:          fmt.Sprintf("Schema %s root has removed '%s'", op, oldOp.Type),
 			position:         oldOp.Position,
 		})
 	}
@@ -267,7 +267,7 @@ func changesInSchemaOperation(oldOp *ast.OperationTypeDefinition, newOp *ast.Ope
 		changes = append(changes, &Change{
 			changeType:       changeType,
 			criticalityLevel: Breaking,
-			message:          fmt.Sprintf("Schema %s root has changed from '%s' to '%s'", op, oldOp.Operation, newOp.Operation),
+			message:          fmt.Sprintf("Schema %s root has changed from '%s' to '%s'", op, oldOp.Type, newOp.Type),
 			position:         newOp.Position,
 		})
 	}
-- 
2.43.0


From c23251c6af92a433131566fec9d14d05cfd6dbf6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:30:56 +0000
Subject: [PATCH 13/17] fix: parse the files of a schema in a fixed order

With a declaration in two files the result of a comparison depended on map iteration order.
---
 utils/util.go | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/utils/util.go b/utils/util.go
index 35eb105..32958c2 100644
--- a/utils/util.go
+++ b/utils/util.go
@@ -5,6 +5,7 @@ import (
 	"io"
 	"os"
 	"path/filepath"
+	"sort"
 
 	"github.com/vektah/gqlparser/v2/ast"
 	"github.com/vektah/gqlparser/v2/parser"
@@ -13,10 +14,16 @@ import (
 // ParseSchema parse schema files and combine their sources
 func ParseSchema(schemaFileContents map[string][]byte) (*ast.SchemaDocument, error) {
 	var sources []*ast.Source
-	for fn, sf := range schemaFileContents {
+	fileNames := make([]string, 0, len(schemaFileContents))
+	for fn := range schemaFileContents {
+		fileNames = append(fileNames, fn)
+	}
+	// the order of the sources must not depend on map iteration order
+	sort.Strings(fileNames)
+	for _, fn := range fileNames {
 		s := &ast.Source{
 			Name:  fn,
-			Input: string(sf),
+			Input: string(schemaFileContents[fn]),
 		}
 		sources = append(sources, s)
 	}
-- 
2.43.0


From 3fb022adf9593c05da6bb509a235d79813ebec04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:30:56 +0000
Subject: [PATCH 14/17] fix: report why a schema file cannot be opened

The message always ended in error:<nil>.
---
 utils/util.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/utils/util.go b/utils/util.go
index 32958c2..26d0e28 100644
--- a/utils/util.go
+++ b/utils/util.go
@@ -49,7 +49,7 @@ func ReadFiles(schemaFilePath string) (map[string][]byte, error) {
 	for _, filename := range schemaFiles {
 		fileObject, fileErr := os.Open(filename) // nolint:gosec
 		if fileErr != nil {
-			return nil, fmt.Errorf("failed to open file:%s on path:%s, error:%v", filename, schemaFilePath, err)
+			return nil, fmt.Errorf("failed to open file:%s on path:%s, error:%v", filename, schemaFilePath, fileErr)
 		}
 		content, err := io.ReadAll(fileObject)
 		if err != nil {
-- 
2.43.0


From 2f44549220eec756e306131529bc029186691c5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:30:56 +0000
Subject: [PATCH 15/17] fix: close schema files after reading them

---
 utils/util.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/utils/util.go b/utils/util.go
index 26d0e28..7e563d6 100644
--- a/utils/util.go
+++ b/utils/util.go
@@ -52,6 +52,7 @@ func ReadFiles(schemaFilePath string) (map[string][]byte, error) {
 			return nil, fmt.Errorf("failed to open file:%s on path:%s, error:%v", filename, schemaFilePath, fileErr)
 		}
 		content, err := io.ReadAll(fileObject)
+		_ = fileObject.Close()
 		if err != nil {
 			return nil, fmt.Errorf("failed to read file:%s on path:%s, error:%v", filename, schemaFilePath, err)
 		}
-- 
2.43.0


From 1c3b9fa87e2b5cd3b832812de7a634417a3b478f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:30:56 +0000
Subject: [PATCH 16/17] fix: lint files in a fixed order

The output depended on map iteration order.
---
 cmd/linter/lint_cmd.go | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/cmd/linter/lint_cmd.go b/cmd/linter/lint_cmd.go
index ae510b2..0c42839 100644
--- a/cmd/linter/lint_cmd.go
+++ b/cmd/linter/lint_cmd.go
@@ -4,6 +4,7 @@ import (
 	"fmt"
 	"io"
 	"os"
+	"sort"
 	"strings"
 
 	"github.com/CrowdStrike/gql/pkg/linter"
@@ -63,8 +64,14 @@ func NewLintCmd() *cobra.Command {
 func FindLintErrors(schemaFileContents map[string][]byte, rulesToApply []linter.LintRuleFunc) int {
 	exitStatus := 0
 	errorCount := 0
-	for filename, schemaFileContent := range schemaFileContents {
-		if lintErrors := Lint(filename, string(schemaFileContent), rulesToApply); len(lintErrors) != 0 {
+	filenames := make([]string, 0, len(schemaFileContents))
+	for filename := range schemaFileContents {
+		filenames = append(filenames, filename)
+	}
+	// the output must not depend on map iteration order
+	sort.Strings(filenames)
+	for _, filename := range filenames {
+		if lintErrors := Lint(filename, string(schemaFileContents[filename]), rulesToApply); len(lintErrors) != 0 {
 			errorCount += len(lintErrors)
 			errorPresenter(filename, lintErrors)
 			exitStatus |= 1 // If there's error for any file, exit code should be 1
-- 
2.43.0


From 1d392277e59410b01e8f6516f916acc99f105522 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:30:56 +0000
Subject: [PATCH 17/17] fix: compare types in a fixed order

The order of changes on the same line depended on map iteration order.
---
 pkg/compare/compare.go | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/pkg/compare/compare.go b/pkg/compare/compare.go
index 18e7c7b..fcd93a2 100644
--- a/pkg/compare/compare.go
+++ b/pkg/compare/compare.go
@@ -316,9 +316,15 @@ func mergeExtensions(extensions ast.DefinitionList) ast.DefinitionList {
 // changeInPersistedTypes change in the types present in both schemas
 func changeInPersistedTypes(persistedType map[string][]*ast.Definition) []*Change {
 	var changes []*Change
-	for _, defs := range persistedType {
-		ot := defs[0]
-		nt := defs[1]
+	names := make([]string, 0, len(persistedType))
+	for name := range persistedType {
+		names = append(names, name)
+	}
+	// the order of the changes must not depend on map iteration order
+	sort.Strings(names)
+	for _, name := range names {
+		ot := persistedType[name][0]
+		nt := persistedType[name][1]
 		if ot.Kind == ast.Enum && nt.Kind == ast.Enum {
 			changes = append(changes, changeInEnum(ot, nt)...)
 		}
-- 
2.43.0

