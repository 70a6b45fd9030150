#!/usr/bin/env python3
"""Regenerates /verif/properties.jsonl (the single place where properties are worded)."""
import json, os
CMP="pkg/compare/compare.go"; RULES="pkg/linter/rules.go"; LERR="pkg/linter/lint_error.go"
LINT="cmd/linter/linter.go"; INL="cmd/linter/inline_lint_config.go"; LCMD="cmd/linter/lint_cmd.go"
LEX="cmd/linter/lexer/lexer.go"; BLK="cmd/linter/lexer/blockstring.go"; CCMD="cmd/compare/compare_cmd.go"; UTIL="utils/util.go"
P=[]
def p(id,title,statement,over,text,why,files,mech,observe=None,state=None):
    a={"files":files,"mechanism":[{"name":n,"where":w} for n,w in mech]}
    if observe: a["observe_at"]=observe
    if state: a["state"]=[{"name":n,"meaning":m,"where":w} for n,m,w in state]
    a["hook_needed"]=None
    P.append({"id":id,"title":title,"statement":statement,"quantifier":{"over":over,"text":text},"why_tests_cant":why,"anchors":a})
ONE="compare_test.go has one fixed schema pair per change kind, each differing in exactly one place, and looks only at changes[0]; "
FIND="compare.FindChangesInSchemas(old,new)"
p("C01","An unchanged or merely reordered schema reports no changes",
  "Comparing a schema with itself, or with a copy in which definitions, extension blocks, directive definitions, fields, arguments, enum values, union members, implemented interfaces or directive locations appear in another order, reports no change at all. This holds for every parseable schema that defines each type, directive and member once, including applied directives repeated (with or without arguments) and several extension blocks of one type.",
  ["inputs"],"every parseable schema document and every permutation of its lists",
  ONE+"no test compares a schema with itself or with a reordering.",[CMP],
  [("lookup by name (ForName) on both sides","compare.go changeIn*"),("persisted type pairing","compare.go changeInTypes/checkTypeRemoved")],[FIND])
p("C02","Output type changes are Breaking exactly when not covariantly safe",
  "For every field of an object or interface present in both versions, a change is reported if and only if the declared type differs; it is NonBreaking exactly when the new type is the old type with non-null markers only added (at any list depth), and Breaking otherwise (named type changed, list wrapping changed, or any non-null marker removed).",
  ["inputs"],"all pairs of type references: any named types, any list nesting, any combination of non-null markers",
  ONE+"it covers four type pairs of list depth at most one.",[CMP],[("recursive safety test for field types","compare.go isSafeChangeForFieldType, checkFieldTypeChanged")],[FIND])
p("C03","Input type changes are Breaking exactly when not contravariantly safe",
  "For every field argument, input-object field and directive-definition argument present in both versions, a type change is reported if and only if the declared type differs; it is NonBreaking exactly when the new type is the old type with non-null markers only removed (at any list depth), and Breaking otherwise.",
  ["inputs"],"all pairs of type references in each of the three input positions",
  ONE+"it covers a handful of non-list pairs.",[CMP],[("recursive safety test for input values","compare.go isSafeChangeForInputValue")],[FIND])
p("C04","Added, removed and re-kinded types are each reported exactly once",
  "Every type definition (and, separately, every extended type) whose name occurs only in the old schema is reported once as removed and Breaking, one occurring only in the new schema once as added and NonBreaking, and one whose kind differs between the versions once as a Breaking kind change; a type present in both with the same kind is reported as none of these.",
  ["inputs"],"all pairs of documents: any number, names, kinds and order of definitions and extensions",
  ONE+"one type is added, removed or re-kinded at a time.",[CMP],[("added/removed scans","compare.go checkTypeRemoved, checkTypeAdded"),("kind comparison","compare.go changeInTypes")],[FIND])
p("C05","Added and removed object and interface fields are each reported exactly once",
  "For an object or interface type present in both versions, each field existing only in the old version is reported once as removed and Breaking, each existing only in the new version once as added and NonBreaking, and no other field is reported as added or removed; the report names that type and field.",
  ["inputs"],"all field lists on both sides, any names and order",ONE+"one field is added or removed.",[CMP],
  [("field scans","compare.go changeInFields, checkFieldsAdded")],[FIND])
p("C06","Added and removed field arguments are reported once with the right severity",
  "For a field present in both versions, each argument existing only in the old version is reported once as removed and Breaking; each existing only in the new version is reported once as added, Breaking if it is non-null without a default value and Dangerous if it is nullable; no other argument is reported as added or removed.",
  ["inputs"],"all argument lists on both sides, any names, order and types",ONE+"single arguments only.",[CMP],
  [("argument scans","compare.go changeInArgument, checkFieldArgumentAdded")],[FIND])
p("C07","Added and removed input-object fields are reported once with the right severity",
  "For an input object present in both versions, each field existing only in the old version is reported once as removed and Breaking; each existing only in the new version is reported once as added, Breaking if it is non-null without a default value and Dangerous if it is nullable; no other input field is reported as added or removed.",
  ["inputs"],"all input field lists on both sides",ONE+"single input fields only.",[CMP],
  [("input field scans","compare.go changeInInputFields, checkInputFieldsAdded")],[FIND])
p("C08","Enum value changes are reported completely with the right severity",
  "For an enum present in both versions, each value existing only in the old version is reported once as removed and Breaking, each existing only in the new one once as added and Dangerous, and no other value is reported as added or removed, whatever the order, casing or deprecation of the values.",
  ["inputs"],"all enum value lists on both sides",ONE+"a single value is added or removed.",[CMP],
  [("enum scans","compare.go changeInEnum, checkEnumValuesAdded")],[FIND])
p("C09","Union member and implemented-interface changes are reported completely",
  "For a union present in both versions each member only in the old version is reported once as Breaking removal and each only in the new version once as Dangerous addition; the same holds for the interfaces an object type implements; nothing else is reported as such a change.",
  ["inputs"],"all member / interface lists on both sides",ONE+"one member or interface.",[CMP],
  [("nested membership scans","compare.go checkUnionMember*, checkTypeInterface*")],[FIND])
p("C10","Directive definition changes are reported completely with the right severity",
  "A directive definition only in the old schema is one Breaking removal, only in the new one NonBreaking addition; for one in both, each lost location, loss of repeatable, and removed argument is one Breaking change, each gained location, gain of repeatable and added nullable argument is one NonBreaking change, and each added non-null argument without default is one Breaking change, with nothing else of these kinds reported.",
  ["inputs"],"all pairs of directive definition lists",ONE+"one directive, one difference.",[CMP],
  [("directive definition diff","compare.go changeInDirective and helpers")],[FIND])
p("C11","Changes to directives applied to types and fields are detected",
  "For every object or interface type, and every field of an object, interface or input object, present in both versions: a directive (other than deprecated) applied in the old version and absent in the new is a Dangerous removal, one newly applied is a NonBreaking addition, and for a directive applied once in both, each removed or changed argument is one Dangerous change and each added argument one NonBreaking change. When it is applied several times on either side, each old application with no identical application in the new version is one Dangerous change.",
  ["inputs"],"all lists of applied directives with any arguments, including repeated ones",ONE+"two fixtures use a repeated directive.",[CMP],
  [("applied directive diff","compare.go changeInTypeFieldDirectives and helpers")],[FIND])
p("C12","Root operation changes are reported with the right severity",
  "For each of query, mutation and subscription, in the schema block and in the schema extension: a root operation present only in the old version or bound to a different type is exactly one Breaking change, present only in the new version exactly one NonBreaking change, and unchanged none, independently of the order in which operations or extension blocks are written.",
  ["inputs"],"all pairs of schema blocks and schema extension blocks",ONE+"only one operation differs and the schema extension is never exercised.",[CMP],
  [("root operation diff","compare.go changeInSchema, changesInSchemaOperation")],[FIND])
p("C13","Deprecation being added, removed or re-reasoned is reported",
  "For each object, interface or input field and each enum value present in both versions, gaining or losing @deprecated is reported exactly once as Dangerous, both versions being deprecated with different explicit reasons exactly once as NonBreaking, and otherwise no deprecation change is reported.",
  ["inputs"],"all combinations of deprecated directives and reasons, among other directives, on each element kind",ONE+"removal of an enum value's deprecation is not tested.",[CMP],
  [("deprecation diff","compare.go checkFieldDeprecationChanged, checkEnumValueDeprecationChanged")],[FIND])
p("C14","Default value and description differences are reported, and only those",
  "For every field argument, input field and directive argument in both versions, a Dangerous default-value change is reported exactly once if and only if the default differs (including being added or removed); for every type, field, argument, input field, enum value, directive and directive argument in both versions, a NonBreaking description change is reported exactly once if and only if the description text differs.",
  ["inputs"],"all description texts and default values (scalars, lists, objects, absent)",ONE+"one fixture per kind; nested default values are never compared.",[CMP],
  [("value/description comparison","compare.go (every changeIn* function)")],[FIND])
p("C15","A difference is reported no matter what else the schema contains",
  "The changes reported for two schemas are exactly the changes of each type definition compared on its own, plus those of each type's extensions compared on their own, plus those of directives and root operations: no definition, extension or difference hides, duplicates or alters the report for another. In particular a type that is both defined and extended in one document is compared in both roles.",
  ["inputs"],"all documents with several definitions and extensions, including same-named ones",ONE+"no test has two differences or a type that is both defined and extended.",[CMP],
  [("pairing of old and new definitions by name","compare.go changeInTypes/checkTypeRemoved persistedType")],[FIND])
p("C16","Grouping and reporting lose, duplicate or misfile no change",
  "Grouping puts every change into exactly the group of its own severity and into no other; each report function prints every change given to it exactly once, ordered by file and then line, prefixed with its location exactly when locations are requested and known, and returns how many it was given.",
  ["inputs"],"all lists of changes with any severities, messages and positions","No test calls GroupChanges or any Report function.",[CMP],
  [("grouping","compare.go GroupChanges"),("printing and sorting","compare.go Report*Changes, less, getPosition")],["compare.GroupChanges","compare.Report*Changes stdout"])
p("C17","Comparing and reporting any two parseable schemas never crashes",
  "For any two schema texts the parser accepts, comparing them, grouping the changes and printing the report terminates without a crash, and every change carries a non-empty message, a known severity, and a position inside one of the two input files.",
  ["inputs"],"all pairs of schema texts accepted by the parser","Tests compare a few dozen fixed texts and never print.",[CMP,UTIL],
  [("nil handling in comparisons and in less/getPosition","compare.go")],["parser.ParseSchema then compare.* "])
p("C18","The result does not depend on map iteration or file order",
  "The set of changes found for two schemas (each with its type, severity, path and message), and the exit status, are the same in every run: they do not depend on map iteration order, nor on the order in which the files of a multi-file schema are read.",
  ["schedules","inputs"],"every iteration order of every map involved, every order of the input files","A test run sees one random order and single-file schemas.",[CMP,UTIL],
  [("map keyed by type name","compare.go changeInTypes"),("map of file contents","util.go ParseSchema")],[FIND,"utils.ParseSchema"])
p("C19","compare exits 1 exactly when there is a Breaking change and prints what it found",
  "The compare command exits with status 1 if the comparison contains at least one Breaking change and with status 0 if it contains none (given two readable, parseable, differently named inputs); it prints every breaking change, prints the others exactly unless breaking-only output is requested, and the count it prints equals the number of Breaking changes.",
  ["inputs","configurations"],"all schema pairs and all combinations of the -b and -e flags","cmd/compare has no tests.",[CCMD,CMP],
  [("command body","compare_cmd.go NewCompareCmd Run")],["process exit status and stdout"])
p("C20","Every change names and locates what changed",
  "The message of every reported change contains the names of the type and member, argument or directive it is about and, where a type, a default value or a root operation changed, both its old and its new value; it never calls an addition a removal or the reverse; and its position is that of the element in the new schema or, for a removal, of the removed element in the old schema or of its enclosing element in the new one.",
  ["inputs"],"every kind of change, any names, types and values",ONE+"messages and positions are not compared.",[CMP],
  [("message, path and position of each Change literal","compare.go")],["Change.GetMessage","Change.GetPosition"])
p("C21","compare fails visibly on input it cannot read or parse",
  "If the old or the new schema is not named, both are the same path, no file matches, a matched file cannot be read, or a file does not parse, the compare command exits with status 1, says so, and reports neither success nor changes nor the absence of changes.",
  ["inputs","fault_sequences"],"every way in which either version is missing, unreadable or unparseable","The command has no tests.",[CCMD,UTIL,"cmd/root.go"],
  [("error paths of the command","compare_cmd.go NewCompareCmd"),("ReadFiles, ParseSchema","util.go")],["exit status and stdout"])
for id,rule,title,st,why in [
 ("L01","type-desc","type-desc flags exactly the types without a description","For every document, type-desc reports one error for each type definition whose description is empty, at that definition's position and naming it, and nothing else; type extensions are never reported.",""),
 ("L02","args-desc","args-desc flags exactly the field arguments without a description","For every document, args-desc reports one error for each argument without a description of each field of every object or interface type and extension, at that argument's position and naming type, field and argument, and nothing else.",""),
 ("L03","field-desc","field-desc flags exactly the fields without a description","For every document, field-desc reports one error for each field without a description of every type definition and every type extension, on the line of that field's type and naming type and field, and nothing else.",""),
 ("L04","enum-desc","enum-desc flags exactly the enum values without a description","For every document, enum-desc reports one error for each value without a description of every enum definition and enum extension, at that value's position and naming enum and value, and nothing else.",""),
 ("L05","enum-caps","enum-caps flags exactly the enum values that are not upper case","For every document, enum-caps reports one error for each value of every enum definition and enum extension whose name contains a lower-case letter, at that value's position and naming it, and nothing else.",""),
 ("L06","field-camel","field-camel flags exactly the fields that are not camelCase","For every document, field-camel reports one error for each field of every definition and extension whose name is not a lower-case letter followed only by letters and digits, on the line of that field's type and naming it, and nothing else.",""),
 ("L07","type-caps","type-caps flags exactly the types starting with a lower-case letter","For every document, type-caps reports one error for each type definition and each type extension whose name starts with a lower-case letter a to z, at its position and naming it, and nothing else.",""),
]:
  p(id,title,st,["inputs"],"all schema documents: any names, descriptions, kinds, positions, number and order of elements","rules_test.go feeds a few fixed documents per rule and mostly checks the number of errors.",[RULES],[(rule,"rules.go")],["RuleFunction(doc) of linter.AllTheRules"])
p("L08","relay-conn-type enforces the Relay connection type shape",
  "For every document, relay-conn-type reports for each definition whose name ends in Connection exactly: one error if it is not an object type; otherwise one error if it lacks an edges field, one for an edges field that is not a list, one if it lacks pageInfo, and one for a pageInfo field that is not exactly the non-null named type PageInfo; every other definition yields nothing.",
  ["inputs"],"all documents and all field types of such definitions","rules_test.go has a few fixed connection types.",[RULES],[("relay-conn-type","rules.go RelayConnectionTypesSpec")],["RuleFunction(doc)"])
p("L09","relay-conn-args enforces the Relay connection argument rules",
  "For every document, for each field of a type definition whose (possibly wrapped) named type ends in Connection, relay-conn-args reports one error unless it has both first and after or both last and before; first (and likewise last) must be an unwrapped Int type, and additionally nullable when the opposite direction is complete, else one error each; other fields yield nothing.",
  ["inputs"],"all argument sets and argument types of such fields","rules_test.go has a few fixed fields.",[RULES],[("relay-conn-args","rules.go RelayConnectionArgumentsSpec")],["RuleFunction(doc)"])
p("L10","Linting returns every rule's errors, each once, in source order",
  "The errors returned for a file are exactly the union of the errors of the selected rules (absent inline configuration), each as often as its rule reported it, and they are ordered by line and then by column.",
  ["inputs"],"all sequences of errors from all rule sets","No test exercises cmd/linter or GetSortedErrors.",[LINT,LERR],[("collect, sort, filter","linter.go Lint; lint_error.go")],["Lint(file, text, rules)"])
p("L11","Inline lint-disable/enable comments suppress exactly the documented errors",
  "An error of rule R on line n is suppressed if and only if a lint-disable-line comment naming R is on line n, or the last lint-disable/lint-enable comment naming R on a line before n is a lint-disable; comments apply to each comma-separated rule they name (ignoring case and surrounding blanks), and to no other rule or line.",
  ["inputs","histories"],"all sequences of inline comments, rule lists, and errors on any line","cmd/linter has no tests.",[LINT,INL],[("inline config extraction","inline_lint_config.go"),("filter","linter.go filterErrors")],["Lint(file, text, rules)"])
p("L12","Linting any parseable schema never crashes",
  "For every schema text the parser accepts, whatever comments, blanks or string contents it has, linting with all rules returns normally.",
  ["inputs"],"all schema texts accepted by the parser","cmd/linter has no tests and rules_test.go has fixed texts.",[LINT,INL,RULES,LEX],[("comment scan and regexp groups","inline_lint_config.go extractInlineLintConfiguration")],["Lint(file, text, rules)"])
p("L13","Rule selection applies exactly the named rules and rejects unknown names",
  "With no rule named, all available rules are applied once; otherwise exactly the rules named (ignoring case and surrounding blanks) are applied in the order given, and if any given name is not an available rule the selection fails as a whole.",
  ["inputs","configurations"],"all lists of rule names","cmd/linter has no tests.",[LCMD],[("FindTheRulesToApply","lint_cmd.go")],["FindTheRulesToApply(list)"])
p("L14","lint exits 1 exactly when a file has an error, and prints and counts them all",
  "Linting a set of files yields exit status 1 if and only if at least one unsuppressed error was found in any file; every error is printed exactly once with its own file, line and column, and the printed total is the number of errors over all files.",
  ["inputs","schedules"],"all sets of files, all errors in them, all file orders","cmd/linter has no tests.",[LCMD],[("FindLintErrors, errorPresenter","lint_cmd.go")],["FindLintErrors(files, rules) and stdout"])
p("L15","lint fails visibly on input it cannot read or parse",
  "If no file matches, a matched file cannot be read, or a file or the standard input does not parse, the lint command exits with status 1, says so, and never reports that the schema has no lint errors.",
  ["inputs","fault_sequences"],"every way in which a file or the input is missing, unreadable or unparseable","The command has no tests.",[LCMD,LINT,UTIL,"cmd/root.go"],
  [("error paths of the command","lint_cmd.go NewLintCmd"),("parse errors","linter.go Lint")],["exit status and stdout"])
p("X01","The comment-preserving lexer agrees with the parser's lexer on everything else",
  "For every input text, the token sequence of the linter's lexer with comments removed (kinds, values, positions and the point and kind of any error) is identical to that of the parser's lexer.",
  ["inputs"],"all input texts","The lexer copy has no tests at all.",[LEX,BLK],[("ReadToken and helpers","lexer.go, blockstring.go")],["lexer.New(src).ReadToken()"])
p("X02","Comments are tokenised exactly, with their line and column",
  "For every input text, every comment outside a string becomes one comment token holding exactly the characters from # to the end of that line, with the line and (unless its line follows a CR LF) the column at which it starts; no comment token is produced inside a string or block string, and lexing always progresses to the end of input or an error.",
  ["inputs"],"all input texts, including CR, LF, CRLF, tabs, byte-order marks and multi-byte characters","The lexer copy has no tests at all.",[LEX],[("ws, readComment, makeToken","lexer.go")],["lexer.New(src).ReadToken()"])
p("U01","Every file matched by the path is read completely, or the command fails",
  "Reading a schema path returns exactly the files the pattern matches, each with its full content, and returns an error (never a partial result) if nothing matches, the pattern is malformed, or any matched file cannot be opened or read.",
  ["inputs","fault_sequences"],"all sets of matched files, all contents, and an I/O failure at any open or read","utils has no tests.",[UTIL],[("ReadFiles","util.go")],["utils.ReadFiles(pattern)"])
p("U02","A multi-file schema is parsed as the union of its files",
  "Parsing a set of files yields a document containing exactly the definitions, extensions, schema blocks and directives of all the files, each attributed to its own file, and fails if and only if some file does not parse.",
  ["inputs"],"all sets of files","utils has no tests.",[UTIL],[("ParseSchema","util.go")],["utils.ParseSchema(map)"])
p("C22","Comparing leaves both schemas as they were and can be repeated",
  "Comparing two schemas, grouping the changes and printing them modify neither schema document; comparing the same two documents again, whatever was compared in between, gives the same changes at the same places.",
  ["inputs","histories"],"all pairs of schemas, with several extension blocks of one type, repeated directives and many members, and any sequence of comparisons of them","Every test compares two documents once and never looks at them again.",[CMP],
  [("merging of extension blocks, sorting of changes","compare.go mergeExtensions, Report*Changes")],[FIND])
p("C23","compare prints the same report in every run",
  "What compare prints for two schemas (each line and the order of the lines, with or without locations) is the same in every run: it depends neither on map iteration order nor on the order in which files are read.",
  ["schedules","inputs"],"every iteration order of every map involved, all pairs of schemas including those with several changes on one line","No test prints a report, and a test run sees one random order.",[CMP,UTIL],
  [("order of the compared types","compare.go changeInPersistedTypes"),("order of the files","util.go ParseSchema"),("sorting of changes","compare.go Report*Changes, less")],["stdout of compare"])
p("L16","Linting a file depends on nothing but the file and the rules",
  "The errors found in a file are the same whether it is linted alone, again, or together with any other files in any order; the exit status, the total and everything lint prints for a set of files are the same in every run.",
  ["inputs","schedules","histories"],"all sets of files, every map iteration order, every sequence of lint calls in one process","Tests lint one text at a time and never twice.",[LINT,LCMD,LERR,INL],
  [("loop over the files","lint_cmd.go FindLintErrors"),("inline configuration of a file","linter.go Lint")],["linter.FindLintErrors stdout and result"])
p("U03","A failed read names the path, the file and the cause",
  "When reading a schema path fails, the error contains the path that was given and, if a matched file cannot be opened or read, that file's name and the reason the operating system gave; it never claims that there was no cause.",
  ["inputs","fault_sequences"],"all patterns and sets of files, and an I/O failure at any open or read","utils has no tests.",[UTIL],[("error returns","util.go ReadFiles")],["utils.ReadFiles(pattern)"])
p("U04","Reading a schema leaves no file open",
  "When reading a schema path returns, with the contents or with an error, every file that was opened for it has been closed.",
  ["inputs","fault_sequences"],"all sets of matched files and an I/O failure at any open or read","utils has no tests.",[UTIL],[("open and close","util.go ReadFiles")],["utils.ReadFiles(pattern)"])
p("C24","Without a Breaking change, whatever a client could rely on is still there",
  "If no change found is Breaking, then every type definition, extended type, field, argument, input field, enum value, union member, interface of an object, root operation, directive definition and directive location of the old schema is in the new one, with the same kind; no field's type has become nullable or otherwise different; everything an argument or input field accepted it still accepts; and no existing field, directive or input object has a new required argument or field. (Definitions and extensions count separately, each declared once; losing a default value is a Dangerous change of its own.)",
  ["inputs"],"all pairs of schemas","Tests look at one planned difference each; whether some loss goes unreported cannot be seen from them.",[CMP],
  [("FindChangesInSchemas and everything it calls","compare.go")],[FIND])
p("C25","How a schema is written makes no difference to the comparison",
  "Blanks, line ends, commas, comments, a byte order mark, optional separators and the form in which a string is quoted do not matter: rewriting one or both schemas in these respects gives the same changes, each with the same type, severity, path and message.",
  ["inputs"],"all schemas and all ways to write them","Every test has one way to write its schemas.",[CMP],[("FindChangesInSchemas and everything it calls","compare.go")],[FIND])
p("L17","How a schema is written makes no difference to linting",
  "Blanks, blank lines, commas, a byte order mark, line end conventions, optional separators, the form in which a string is quoted and comments that are not lint commands do not matter: rewriting a file in these respects gives the same errors, on the lines to which their elements have moved.",
  ["inputs"],"all schemas and all ways to write them","Every test has one way to write its schema.",[LINT,INL,LEX,RULES],[("inline comments and error positions","linter.go, inline_lint_config.go, lexer.go")],["linter.Lint"])
p("C26","How a schema is divided into files and extension blocks makes no difference to the comparison",
  "Moving declarations from one schema file to another, joining or splitting files, and moving members, interfaces, directives or root operations between extension blocks of one type (or of the schema) is no change; and the changes against any other version are the same however either version is divided, each with the same type, severity, path and message.",
  ["inputs"],"all schemas and all ways to divide them into files and extension blocks","No test has two files or two extension blocks of one type.",[CMP,UTIL],
  [("merging of extension blocks","compare.go mergeExtensions"),("root operations of all schema blocks","compare.go"),("joining of files","util.go ParseSchema")],[FIND,"utils.ParseSchema(map)"])
if __name__=="__main__":
  out=os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))),"properties.jsonl")
  with open(out,"w") as f:
    for x in P: f.write(json.dumps(x,ensure_ascii=False)+"\n")
  print(len(P))
