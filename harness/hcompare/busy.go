package hcompare

import (
	"strings"

	"github.com/CrowdStrike/gql/pkg/compare"
	"github.com/CrowdStrike/gql/zzverif/nd"
)

// ---- Schemas in which several things change at once.

// edit is one difference. In the text its place is marked with ~ and the letter; what is expected is a list of
// "PROPERTY TYPE severity path names...", separated by semicolons. An edit without old and new text is a type description:
// extensions have none.
type edit struct {
	key     byte
	old, nw string
	want    string
}

type busyDoc struct {
	text  string
	ext   bool // the text has ^ for "extend "
	edits []edit
}

var busyDocs = map[string]busyDoc{
	"object": {`~A ^type $a implements ~BX ~C @d1(p: ~D) ~E ~F {
 ~G $b(x: Int = ~H, "d" y: [~I ~J, z: Int ~K ~U ~L): ~M ~N @h(q: "a" ~O)
 ~P
 ~Q
 ft: R~R @deprecated(reason: "~S")
 fu: [[R]~T]
}
type X { f: Int }`, true, []edit{
		{'A', `"d1"`, `"d2"`, "C14 TYPE_DESCRIPTION_CHANGED n $a $a"},
		{'B', "W & ", "", "C09 OBJECT_TYPE_INTERFACE_REMOVED b $a $a W"},
		{'C', "", "& V", "C09 OBJECT_TYPE_INTERFACE_ADDED d $a $a V"},
		{'D', "1", "2", "C11 DIRECTIVE_ARGUMENT_VALUE_CHANGED d @d1.p @d1 $a"},
		{'E', "@e", "", "C11 DIRECTIVE_REMOVED d $a @e $a"},
		{'F', "", "@g(p: 1)", "C11 DIRECTIVE_ADDED n $a @g $a"},
		{'G', `"d1"`, `"d2"`, "C14 FIELD_DESCRIPTION_CHANGED n $a.$b $b"},
		{'H', "1", "2", "C14 FIELD_ARGUMENT_DEFAULT_CHANGED d $a.$b.x $b"},
		{'I', "Int!]!", "Int!]", "C03 FIELD_ARGUMENT_TYPE_CHANGED n $a.$b.y $b"},
		{'J', "= [1, 2]", "= [1, 3]", "C14 FIELD_ARGUMENT_DEFAULT_CHANGED d $a.$b.y $b"},
		{'K', "", "w: [Int]!", "C06 FIELD_ARGUMENT_ADDED b $a.$b.w $b w"},
		{'U', "", "k: [Int!] = []", "C06 FIELD_ARGUMENT_ADDED d $a.$b.k $b k"},
		{'L', ", v: Int", "", "C06 FIELD_ARGUMENT_REMOVED b $a.$b.v $b v"},
		{'M', "[R]", "[R]!", "C02 FIELD_TYPE_CHANGED n $a.$b $b"},
		{'N', "", "@deprecated", "C13 FIELD_DEPRECATION_ADDED d $a.$b $b"},
		{'O', "", "r: 1", "C11 DIRECTIVE_ARGUMENT_ADDED n - @h r $a.$b"},
		{'P', "fr: Int! @deprecated", "", "C05 FIELD_REMOVED b $a.fr fr"},
		{'Q', "", `"x" fs: Int!`, "C05 FIELD_ADDED n $a.fs fs"},
		{'R', "!", "", "C02 FIELD_TYPE_CHANGED b $a.ft ft"},
		{'S', "r1", "r2", "C13 FIELD_DEPRECATION_REASON_CHANGED n $a.ft ft"},
		{'T', "!", "", "C02 FIELD_TYPE_CHANGED b $a.fu fu"},
	}},
	"interface": {`~A ^interface $a @d1(p: ~D) ~E ~F {
 ~P
 ~G $b(x: Int = ~H, y: ~I, ~K ~L "~U" u: Int): R~M ~N @h(q: "~O")
 ~Q
 ft: R~R @x ~S
}
enum $b { V }`, true, []edit{
		{'A', `"d1"`, `"d2"`, "C14 TYPE_DESCRIPTION_CHANGED n $a $a"},
		{'D', "[1, {a: b}]", "[1, {a: c}]", "C11 DIRECTIVE_ARGUMENT_VALUE_CHANGED d @d1.p @d1 $a"},
		{'E', "@e(p: 1) @e", "@e(p: 2) @e", "C11 DIRECTIVE_CHANGED d $a @e $a"},
		{'F', "@g(p: 1) @g(p: 2)", "@g(p: 3) @g(p: 2)", "C11 DIRECTIVE_CHANGED d $a @g $a"},
		{'G', ``, `"d2"`, "C14 FIELD_DESCRIPTION_CHANGED n $a.$b $b"},
		{'H', "1", "\"1\"", "C14 FIELD_ARGUMENT_DEFAULT_CHANGED d $a.$b.x $b"},
		{'I', "[Int]", "Int", "C03 FIELD_ARGUMENT_TYPE_CHANGED b $a.$b.y $b"},
		{'K', "", "w: Int", "C06 FIELD_ARGUMENT_ADDED d $a.$b.w $b w"},
		{'L', "v: Int!", "", "C06 FIELD_ARGUMENT_REMOVED b $a.$b.v $b v"},
		{'U', "d1", "d2", "C14 FIELD_ARGUMENT_DESCRIPTION_CHANGED n $a.$b.u $b"},
		{'M', "", "R", "C02 FIELD_TYPE_CHANGED b $a.$b $b"},
		{'N', "@deprecated(reason: \"a\")", "", "C13 FIELD_DEPRECATION_REMOVED d $a.$b $b"},
		{'O', "a", "ab", "C11 DIRECTIVE_ARGUMENT_VALUE_CHANGED d @h.q @h $a.$b"},
		{'P', "fr: Int!", "", "C05 FIELD_REMOVED b $a.fr fr"},
		{'Q', "", `fs: [Int] @deprecated`, "C05 FIELD_ADDED n $a.fs fs"},
		{'R', "", "!", "C02 FIELD_TYPE_CHANGED n $a.ft ft"},
		{'S', "", "@deprecated", "C13 FIELD_DEPRECATION_ADDED d $a.ft ft"},
	}},
	"input": {`~A ^input $a @d1 {
 ~G $b: [~I = ~H ~N @h(q: 1 ~O)
 ~P
 fq: R~R = "~J" ~S @deprecated(reason: "~T")
 ~Q
 ~V
 ~U
}`, true, []edit{
		{'A', `"d1"`, ``, "C14 TYPE_DESCRIPTION_CHANGED n $a $a"},
		{'G', `"d1"`, `""" d2 """`, "C14 INPUT_FIELD_DESCRIPTION_CHANGED n $a.$b $b"},
		{'I', "Int!]!", "Int]!", "C03 INPUT_FIELD_TYPE_CHANGED n $a.$b $b"},
		{'H', "[1, 2]", "[1, 3]", "C14 INPUT_FIELD_DEFAULT_VALUE_CHANGED d $a.$b $b"},
		{'N', "", "@deprecated(reason: \"x\")", "C13 INPUT_FIELD_DEPRECATION_ADDED d $a.$b $b"},
		{'O', "r: E", "", "C11 DIRECTIVE_ARGUMENT_REMOVED d @h.r @h $a.$b"},
		{'P', "fr: Int! @deprecated", "", "C07 INPUT_FIELD_REMOVED b $a.fr fr"},
		{'R', "", "!", "C03 INPUT_FIELD_TYPE_CHANGED b $a.fq fq"},
		{'J', "x", "y", "C14 INPUT_FIELD_DEFAULT_VALUE_CHANGED d $a.fq fq"},
		{'S', "@e", "", "C11 DIRECTIVE_REMOVED d $a.fq @e $a.fq"},
		{'T', "r1", "r", "C13 INPUT_FIELD_DEPRECATION_REASON_CHANGED n $a.fq fq"},
		{'Q', "", "fs: [R!]!", "C07 INPUT_FIELD_ADDED b $a.fs fs"},
		{'V', "", "fv: Int = 1", "C07 INPUT_FIELD_ADDED d $a.fv fv"},
		{'U', "", "ft: Int", "C07 INPUT_FIELD_ADDED d $a.ft ft"},
	}},
	"enum": {`~A ^enum $a @d1 {
 ~B
 ~C $b ~D
 ~E V @deprecated~F
 W ~G @h
 ~H
 ~I
}
type $b { V: Int }`, true, []edit{
		{'A', ``, `"d2"`, "C14 TYPE_DESCRIPTION_CHANGED n $a $a"},
		{'B', ``, `Va`, "C08 ENUM_VALUE_ADDED d $a.Va Va"},
		{'C', `"d1"`, ``, "C14 ENUM_VALUE_DESCRIPTION_CHANGED n $a.$b $b"},
		{'D', ``, `@deprecated`, "C13 ENUM_VALUE_DEPRECATION_ADDED d $a.$b $b"},
		{'E', ``, `"d1"`, "C14 ENUM_VALUE_DESCRIPTION_CHANGED n $a.V V"},
		{'F', `(reason: "a")`, `(reason: "b")`, "C13 ENUM_VALUE_DEPRECATION_REASON_CHANGED n $a.V V"},
		{'G', `@deprecated`, ``, "C13 ENUM_VALUE_DEPRECATION_REMOVED d $a.W W"},
		{'H', `"x" Y @deprecated`, ``, "C08 ENUM_VALUE_REMOVED b $a.Y Y"},
		{'I', `v @x`, ``, "C08 ENUM_VALUE_REMOVED b $a.v v"},
	}},
	"union": {`~A ^union $a @d1 = M0 ~B | $b ~C ~D ~E
type M0 { f: Int }`, true, []edit{
		{'A', `"d1"`, `"d2"`, "C14 TYPE_DESCRIPTION_CHANGED n $a $a"},
		{'B', `| M1`, ``, "C09 UNION_MEMBER_REMOVED b $a M1 $a"},
		{'C', ``, `| M2`, "C09 UNION_MEMBER_ADDED d $a M2 $a"},
		{'D', `| M3`, `| m3`, "C09 UNION_MEMBER_REMOVED b $a M3 $a;C09 UNION_MEMBER_ADDED d $a m3 $a"},
		{'E', ``, `| M4`, "C09 UNION_MEMBER_ADDED d $a M4 $a"},
	}},
	"directive": {`~A directive @$a(~B x: Int~C = ~D ~E ~F ~M ~G) ~H on FIELD ~I ~J
type $a { f: Int @$a(x: 2) }
~K
~L`, false, []edit{
		{'A', `"d1"`, `"d2"`, "C14 DIRECTIVE_DESCRIPTION_CHANGED n @$a $a"},
		{'B', `"d1"`, ``, "C14 DIRECTIVE_ARGUMENT_DESCRIPTION_CHANGED n @$a.x $a x"},
		{'C', `!`, ``, "C03 DIRECTIVE_ARGUMENT_TYPE_CHANGED n @$a.x $a x"},
		{'D', `{a: 1}`, `{a: 2}`, "C14 DIRECTIVE_ARGUMENT_DEFAULT_VALUE_CHANGED d @$a.x $a x"},
		{'E', ``, `y: [Int]`, "C10 DIRECTIVE_ARGUMENT_ADDED n @$a.y $a y"},
		{'F', ``, `z: [Int]!`, "C10 DIRECTIVE_ARGUMENT_ADDED b @$a.z $a z"},
		{'M', ``, `k: Int = 1`, "C10 DIRECTIVE_ARGUMENT_ADDED n @$a.k $a k"},
		{'G', `w: Int = 1`, ``, "C10 DIRECTIVE_ARGUMENT_REMOVED b @$a.w $a w"},
		{'H', ``, `repeatable`, "C10 DIRECTIVE_REPEATABLE_ADDED n @$a $a"},
		{'I', `| ENUM`, `| OBJECT`, "C10 DIRECTIVE_LOCATION_REMOVED b @$a ENUM;C10 DIRECTIVE_LOCATION_ADDED n @$a OBJECT"},
		{'J', `| QUERY`, ``, "C10 DIRECTIVE_LOCATION_REMOVED b @$a QUERY"},
		{'K', `directive @old(z: Int!) on FIELD`, ``, "C10 DIRECTIVE_REMOVED b @old @old"},
		{'L', ``, `directive @new repeatable on FIELD`, "C10 DIRECTIVE_ADDED n @new @new"},
	}},
	"flags": {`directive @$a(x: Int~C) ~H on FIELD ~I ~J | UNION
directive @$b ~K on ENUM ~L`, false, []edit{
		{'C', ``, `!`, "C03 DIRECTIVE_ARGUMENT_TYPE_CHANGED b @$a.x $a x"},
		{'H', `repeatable`, ``, "C10 DIRECTIVE_REPEATABLE_REMOVED b @$a $a"},
		{'I', ``, `| OBJECT`, "C10 DIRECTIVE_LOCATION_ADDED n @$a OBJECT"},
		{'J', `| QUERY`, ``, "C10 DIRECTIVE_LOCATION_REMOVED b @$a QUERY"},
		{'K', ``, `repeatable`, "C10 DIRECTIVE_REPEATABLE_ADDED n @$b $b"},
		{'L', `| QUERY`, `| SCALAR`, "C10 DIRECTIVE_LOCATION_REMOVED b @$b QUERY;C10 DIRECTIVE_LOCATION_ADDED n @$b SCALAR"},
	}},
	"root": {`schema { query: Q~A ~B ~C }
extend schema @x { ~D ~E }
extend schema { query: ~F }
type Qa { f: Int }`, false, []edit{
		{'A', `a`, `b`, "C12 SCHEMA_QUERY_TYPE_CHANGED b - Qa Qb"},
		{'B', `mutation: M`, ``, "C12 SCHEMA_MUTATION_TYPE_CHANGED b - M"},
		{'C', ``, `subscription: S`, "C12 SCHEMA_SUBSCRIPTION_TYPE_CHANGED n - S"},
		{'D', `mutation: Ma`, `mutation: Mb`, "C12 SCHEMA_MUTATION_TYPE_CHANGED b - Ma Mb"},
		{'E', `subscription: Sa`, `subscription: Sb`, "C12 SCHEMA_SUBSCRIPTION_TYPE_CHANGED b - Sa Sb"},
		{'F', `Qe`, `qe`, "C12 SCHEMA_QUERY_TYPE_CHANGED b - Qe qe"},
	}},
	"types": {`~A
^~B $a @x
~C
^~D $b @x
^scalar K @x
~E
~F`, true, []edit{
		{'A', `^enum A0 @x`, ``, "C04 TYPE_REMOVED b A0 A0"},
		{'B', `input`, `type`, "C04 TYPE_KIND_CHANGED b $a $a"},
		{'C', ``, `^union C0 @x`, "C04 TYPE_ADDED n C0 C0"},
		{'D', `interface`, `scalar`, "C04 TYPE_KIND_CHANGED b $b $b"},
		{'E', `^input E0 { f: Int! }`, `^type e0 { f: Int! }`, "C04 TYPE_REMOVED b E0 E0;C04 TYPE_ADDED n e0 e0"},
		{'F', `^type F0 implements K @x`, ``, "C04 TYPE_REMOVED b F0 F0"},
	}},
}

var busyOrder = []string{"object", "interface", "input", "enum", "union", "directive", "flags", "root", "types"}

var sev = map[string]compare.Criticality{"b": brk, "d": dng, "n": non}

// busy compares two versions of a schema with up to k of its differences at once, at least one of them of the property.
func busy(prop string, k int, fixed bool, scope ...string) {
	var docs []string
	for _, x := range busyOrder {
		for _, e := range busyDocs[x].edits {
			if prop == "C15" || strings.Contains(e.want, prop) {
				docs = append(docs, x)
				break
			}
		}
	}
	d := busyDocs[docs[nd.Choice("schema", len(docs))]]
	ext := ""
	if d.ext && nd.Choice("extension", 2) == 1 {
		ext = "extend "
	}
	names := []string{"QX", "qY"}
	if !fixed {
		names = []string{"Q" + nd.BytesOf("type", 1, "XYxy_09"), "q" + nd.BytesOf("member", 1, "XYxy_09")}
	}
	on := make([]bool, len(d.edits))
	left, mine := k, prop == "C15"
	for i, e := range d.edits {
		if left == 0 || ext != "" && strings.HasPrefix(e.want, "C14 TYPE_") {
			continue
		}
		if left == 1 && !mine && !strings.Contains(e.want, prop) {
			continue
		}
		if nd.Bool(string(rune(e.key))) {
			on[i] = true
			left--
			mine = mine || strings.Contains(e.want, prop)
		}
	}
	nd.Assume(mine)
	old, nw := "", ""
	last := 0
	var wants []string
	t := d.text
	for p := 0; p < len(t); p++ {
		if t[p] != '~' {
			continue
		}
		old, nw = old+t[last:p], nw+t[last:p]
		for i, e := range d.edits {
			if e.key != t[p+1] {
				continue
			}
			if ext != "" && strings.HasPrefix(e.want, "C14 TYPE_") {
				break
			}
			old += e.old
			if on[i] {
				nw += e.nw
				wants = append(wants, strings.Split(e.want, ";")...)
			} else {
				nw += e.old
			}
		}
		last = p + 2
	}
	s := textScn(substitute(old+t[last:], ext, names), substitute(nw+t[last:], ext, names))
	s.scope = scope
	for _, w := range wants {
		f := strings.Split(substitute(w, "", names), " ")
		in := len(scope) == 0
		for _, x := range scope {
			in = in || x == f[1]
		}
		if !in {
			continue
		}
		path := f[3]
		if path == "-" {
			path = ""
		}
		s.expect(f[1], sev[f[2]], path, true, f[4:]...)
	}
	s.check()
}

// H_C02_busy: Bounds: parsed texts of up to 20 possible differences in and around one type, extension, directive definition or schema block, up to 3 (thorough 4)
// of them at once, at least one of this property, fixed names.
func H_C02_busy() { busy("C02", tier(3, 4), true, typeScope...) }

// H_C02_pairs: Bounds: the texts of H_C02_busy with up to 2 differences (thorough 3) and type and member names with a symbolic byte.
func H_C02_pairs() { busy("C02", tier(2, 3), false, typeScope...) }

// H_C03_busy: Bounds: parsed texts of up to 20 possible differences in and around one type, extension, directive definition or schema block, up to 3 (thorough 4)
// of them at once, at least one of this property, fixed names.
func H_C03_busy() { busy("C03", tier(3, 4), true, typeScope...) }

// H_C03_pairs: Bounds: the texts of H_C03_busy with up to 2 differences (thorough 3) and type and member names with a symbolic byte.
func H_C03_pairs() { busy("C03", tier(2, 3), false, typeScope...) }

// H_C04_busy: Bounds: parsed texts of up to 20 possible differences in and around one type, extension, directive definition or schema block, up to 3 (thorough 4)
// of them at once, at least one of this property, fixed names.
func H_C04_busy() { busy("C04", tier(3, 4), true, "TYPE_ADDED", "TYPE_REMOVED", "TYPE_KIND_CHANGED") }

// H_C04_pairs: Bounds: the texts of H_C04_busy with up to 2 differences (thorough 3) and type and member names with a symbolic byte.
func H_C04_pairs() { busy("C04", tier(2, 3), false, "TYPE_ADDED", "TYPE_REMOVED", "TYPE_KIND_CHANGED") }

// H_C05_busy: Bounds: parsed texts of up to 20 possible differences in and around one type, extension, directive definition or schema block, up to 3 (thorough 4)
// of them at once, at least one of this property, fixed names.
func H_C05_busy() { busy("C05", tier(3, 4), true, "FIELD_ADDED", "FIELD_REMOVED") }

// H_C05_pairs: Bounds: the texts of H_C05_busy with up to 2 differences (thorough 3) and type and member names with a symbolic byte.
func H_C05_pairs() { busy("C05", tier(2, 3), false, "FIELD_ADDED", "FIELD_REMOVED") }

// H_C06_busy: Bounds: parsed texts of up to 20 possible differences in and around one type, extension, directive definition or schema block, up to 3 (thorough 4)
// of them at once, at least one of this property, fixed names.
func H_C06_busy() { busy("C06", tier(3, 4), true, "FIELD_ARGUMENT_ADDED", "FIELD_ARGUMENT_REMOVED") }

// H_C06_pairs: Bounds: the texts of H_C06_busy with up to 2 differences (thorough 3) and type and member names with a symbolic byte.
func H_C06_pairs() { busy("C06", tier(2, 3), false, "FIELD_ARGUMENT_ADDED", "FIELD_ARGUMENT_REMOVED") }

// H_C07_busy: Bounds: parsed texts of up to 20 possible differences in and around one type, extension, directive definition or schema block, up to 3 (thorough 4)
// of them at once, at least one of this property, fixed names.
func H_C07_busy() { busy("C07", tier(3, 4), true, "INPUT_FIELD_ADDED", "INPUT_FIELD_REMOVED") }

// H_C07_pairs: Bounds: the texts of H_C07_busy with up to 2 differences (thorough 3) and type and member names with a symbolic byte.
func H_C07_pairs() { busy("C07", tier(2, 3), false, "INPUT_FIELD_ADDED", "INPUT_FIELD_REMOVED") }

// H_C08_busy: Bounds: parsed texts of up to 20 possible differences in and around one type, extension, directive definition or schema block, up to 3 (thorough 4)
// of them at once, at least one of this property, fixed names.
func H_C08_busy() { busy("C08", tier(3, 4), true, "ENUM_VALUE_ADDED", "ENUM_VALUE_REMOVED") }

// H_C08_pairs: Bounds: the texts of H_C08_busy with up to 2 differences (thorough 3) and type and member names with a symbolic byte.
func H_C08_pairs() { busy("C08", tier(2, 3), false, "ENUM_VALUE_ADDED", "ENUM_VALUE_REMOVED") }

// H_C09_busy: Bounds: parsed texts of up to 20 possible differences in and around one type, extension, directive definition or schema block, up to 3 (thorough 4)
// of them at once, at least one of this property, fixed names.
func H_C09_busy() {
	busy("C09", tier(3, 4), true, "UNION_MEMBER_ADDED", "UNION_MEMBER_REMOVED", "OBJECT_TYPE_INTERFACE_ADDED", "OBJECT_TYPE_INTERFACE_REMOVED")
}

// H_C09_pairs: Bounds: the texts of H_C09_busy with up to 2 differences (thorough 3) and type and member names with a symbolic byte.
func H_C09_pairs() {
	busy("C09", tier(2, 3), false, "UNION_MEMBER_ADDED", "UNION_MEMBER_REMOVED", "OBJECT_TYPE_INTERFACE_ADDED", "OBJECT_TYPE_INTERFACE_REMOVED")
}

// H_C10_busy: Bounds: parsed texts of up to 20 possible differences in and around one type, extension, directive definition or schema block, up to 3 (thorough 4)
// of them at once, at least one of this property, fixed names.
func H_C10_busy() { busy("C10", tier(3, 4), true, dirScope...) }

// H_C10_pairs: Bounds: the texts of H_C10_busy with up to 2 differences (thorough 3) and type and member names with a symbolic byte.
func H_C10_pairs() { busy("C10", tier(2, 3), false, dirScope...) }

// H_C11_busy: Bounds: parsed texts of up to 20 possible differences in and around one type, extension, directive definition or schema block, up to 3 (thorough 4)
// of them at once, at least one of this property, fixed names.
func H_C11_busy() { busy("C11", tier(3, 4), true, dirScope...) }

// H_C11_pairs: Bounds: the texts of H_C11_busy with up to 2 differences (thorough 3) and type and member names with a symbolic byte.
func H_C11_pairs() { busy("C11", tier(2, 3), false, dirScope...) }

// H_C12_busy: Bounds: parsed texts of up to 20 possible differences in and around one type, extension, directive definition or schema block, up to 3 (thorough 4)
// of them at once, at least one of this property, fixed names.
func H_C12_busy() { busy("C12", tier(3, 4), true, opTypes...) }

// H_C12_pairs: Bounds: the texts of H_C12_busy with up to 2 differences (thorough 3) and type and member names with a symbolic byte.
func H_C12_pairs() { busy("C12", tier(2, 3), false, opTypes...) }

// H_C13_busy: Bounds: parsed texts of up to 20 possible differences in and around one type, extension, directive definition or schema block, up to 3 (thorough 4)
// of them at once, at least one of this property, fixed names.
func H_C13_busy() { busy("C13", tier(3, 4), true, depScope...) }

// H_C13_pairs: Bounds: the texts of H_C13_busy with up to 2 differences (thorough 3) and type and member names with a symbolic byte.
func H_C13_pairs() { busy("C13", tier(2, 3), false, depScope...) }

// H_C14_busy: Bounds: parsed texts of up to 20 possible differences in and around one type, extension, directive definition or schema block, up to 3 (thorough 4)
// of them at once, at least one of this property, fixed names.
func H_C14_busy() {
	busy("C14", tier(3, 4), true, append(append([]string{}, defScope...), descScope...)...)
}

// H_C14_pairs: Bounds: the texts of H_C14_busy with up to 2 differences (thorough 3) and type and member names with a symbolic byte.
func H_C14_pairs() {
	busy("C14", tier(2, 3), false, append(append([]string{}, defScope...), descScope...)...)
}

// H_C15_busy: Bounds: parsed texts of up to 20 possible differences in and around one type, extension, directive definition or schema block, up to 3 (thorough 4)
// of them at once, at least one of this property, fixed names.
func H_C15_busy() { busy("C15", tier(3, 4), true) }
