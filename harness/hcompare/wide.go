package hcompare

import (
	"strings"

	"github.com/CrowdStrike/gql/zzverif/nd"
)

// ---- Long lists of members with long names.

// wideDoc is a list in a schema: N is the name of a member.
type wideDoc struct {
	open, item, other, end string
	ext                    bool
	rem, add, chg          string // as in edit.want
}

var wideDocs = map[string][]wideDoc{
	"C02": {{"^type T {", " N: [Int!] ", " N: [Int] ", "}", true, "", "", "C02 FIELD_TYPE_CHANGED b T.N T.N"},
		{"^interface T {", " N: Int ", " N: Int! ", "}", true, "", "", "C02 FIELD_TYPE_CHANGED n T.N T.N"}},
	"C03": {{"^input T {", " N: Int ", " N: Int! ", "}", true, "", "", "C03 INPUT_FIELD_TYPE_CHANGED b T.N T.N"},
		{"^type T { f(", " N: [Int!]! ", " N: [Int]! ", "): Int }", true, "", "", "C03 FIELD_ARGUMENT_TYPE_CHANGED n T.f.N N"},
		{"directive @d(", " N: Int ", " N: [Int] ", ") on FIELD", false, "", "", "C03 DIRECTIVE_ARGUMENT_TYPE_CHANGED b @d.N N"}},
	"C04": {{"", "^enum N @d ", "^scalar N @d ", "", true, "C04 TYPE_REMOVED b N N", "C04 TYPE_ADDED n N N", "C04 TYPE_KIND_CHANGED b N N"}},
	"C05": {{"^type T {", " N: Int! ", "", "}", true, "C05 FIELD_REMOVED b T.N T.N", "C05 FIELD_ADDED n T.N T.N", ""},
		{"^interface T {", " N: Int ", "", "}", true, "C05 FIELD_REMOVED b T.N T.N", "C05 FIELD_ADDED n T.N T.N", ""}},
	"C06": {{"^type T { f(", " N: Int! ", "", "): Int }", true, "C06 FIELD_ARGUMENT_REMOVED b T.f.N N", "C06 FIELD_ARGUMENT_ADDED b T.f.N N", ""},
		{"^interface T { f(", " N: [Int!] ", "", "): Int }", true, "C06 FIELD_ARGUMENT_REMOVED b T.f.N N", "C06 FIELD_ARGUMENT_ADDED d T.f.N N", ""}},
	"C07": {{"^input T {", " N: Int! ", "", "}", true, "C07 INPUT_FIELD_REMOVED b T.N N", "C07 INPUT_FIELD_ADDED b T.N N", ""}},
	"C08": {{"^enum T {", " N ", "", "}", true, "C08 ENUM_VALUE_REMOVED b T.N N", "C08 ENUM_VALUE_ADDED d T.N N", ""}},
	"C09": {{"^union T = ", " | N", "", "", true, "C09 UNION_MEMBER_REMOVED b T N", "C09 UNION_MEMBER_ADDED d T N", ""},
		{"^type T implements ", " & N", "", " @d", true, "C09 OBJECT_TYPE_INTERFACE_REMOVED b T N", "C09 OBJECT_TYPE_INTERFACE_ADDED d T N", ""}},
	"C10": {{"directive @d(", " N: Int! ", "", ") on FIELD", false, "C10 DIRECTIVE_ARGUMENT_REMOVED b @d.N N", "C10 DIRECTIVE_ARGUMENT_ADDED b @d.N N", ""},
		{"", " directive @N on FIELD ", " directive @N repeatable on FIELD ", "", false, "C10 DIRECTIVE_REMOVED b @N N", "C10 DIRECTIVE_ADDED n @N N", "C10 DIRECTIVE_REPEATABLE_ADDED n @N N"}},
	"C11": {{"^type T ", " @N(p: 1) ", " @N(p: 2) ", "", true, "C11 DIRECTIVE_REMOVED d T @N", "C11 DIRECTIVE_ADDED n T @N", "C11 DIRECTIVE_ARGUMENT_VALUE_CHANGED d @N.p @N"},
		{"^type T @d(", " N: \"a\" ", " N: \"b\" ", ")", true, "C11 DIRECTIVE_ARGUMENT_REMOVED d @d.N N", "C11 DIRECTIVE_ARGUMENT_ADDED n T.@d N", "C11 DIRECTIVE_ARGUMENT_VALUE_CHANGED d @d.N N"},
		{"^input T { f: Int ", " @d(p: \"N\") ", " @d(p: \"N2\") ", "}", true, "C11 DIRECTIVE_CHANGED d T.f @d", "", "C11 DIRECTIVE_CHANGED d T.f @d"}},
	"C13": {{"^enum T {", " N ", " N @deprecated ", "}", true, "", "", "C13 ENUM_VALUE_DEPRECATION_ADDED d T.N N"},
		{"^type T {", " N: Int @deprecated ", " N: Int ", "}", true, "", "", "C13 FIELD_DEPRECATION_REMOVED d T.N N"},
		{"^input T {", " N: Int @deprecated(reason: \"N and a long text 1\") ", " N: Int @deprecated(reason: \"N and a long text 2\") ", "}", true, "", "", "C13 INPUT_FIELD_DEPRECATION_REASON_CHANGED n T.N N"}},
	"C14": {{"^enum T {", " \"N and a long text\" N ", " \"N and a long text \" N ", "}", true, "", "", "C14 ENUM_VALUE_DESCRIPTION_CHANGED n T.N N"},
		{"", " \"d\" type N ", " \"D\" type N", "", false, "", "", "C14 TYPE_DESCRIPTION_CHANGED n N N"},
		{"^interface T {", " \"d\nd\" N: Int ", " \"dd\" N: Int ", "}", true, "", "", "C14 FIELD_DESCRIPTION_CHANGED n T.N N"},
		{"^input T {", " N: I = [\"N\", 1] ", " N: I = [\"N\", 2] ", "}", true, "", "", "C14 INPUT_FIELD_DEFAULT_VALUE_CHANGED d T.N N"},
		{"^type T { f(", " N: I = -1 ", " N: I ", "): Int }", true, "", "", "C14 FIELD_ARGUMENT_DEFAULT_CHANGED d T.f.N N"},
		{"directive @d(", " N: I ", " N: I = null ", ") on FIELD", false, "", "", "C14 DIRECTIVE_ARGUMENT_DEFAULT_VALUE_CHANGED d @d.N N"}},
}

// wide compares a list of n members with a version of it in which one member differs, is missing, is new or was replaced, or all are replaced.
func wide(prop string, n int, scope ...string) {
	ds := wideDocs[prop]
	d := ds[nd.Choice("schema", len(ds))]
	ext := ""
	if d.ext && nd.Choice("extension", 2) == 1 {
		ext = "extend "
	}
	const prefix = "aLongNameWithA_CommonPrefix_of_48_characters_01"
	mk := func(i int) string { return prefix + string([]byte{byte('0' + i/10), byte('0' + i%10)}) }
	sym := prefix + nd.BytesOf("name", 2, "05aA")
	mode := nd.Choice("mode", 5)
	at := nd.Choice("at", n)
	rev := nd.Choice("reversed", 2) == 1
	for i := 0; i < n; i++ {
		nd.Assume(sym != mk(i))
	}
	var old, nw []string
	var wants []string
	want := func(w, name string) {
		if w == "" {
			return
		}
		f := strings.SplitN(w, " ", 4)
		wants = append(wants, strings.Join(f[:3], " ")+" "+strings.ReplaceAll(f[3], "N", name))
	}
	fill := func(item, name string) string { return strings.ReplaceAll(item, "N", name) }
	switch {
	case mode < 3 && (d.rem == "" || d.add == "" && mode != 0):
		nd.Assume(false)
	case mode == 3 && d.other == "":
		nd.Assume(false)
	case mode == 4 && (d.rem == "" || d.add == "" || at > 0):
		nd.Assume(false)
	}
	for i := 0; i < n; i++ {
		it := fill(d.item, mk(i))
		old = append(old, it)
		switch {
		case mode == 4:
			x := "other" + mk(i)
			nw = append(nw, fill(d.item, x))
			want(d.rem, mk(i))
			want(d.add, x)
		case i != at:
			nw = append(nw, it)
		case mode == 0: // replaced
			nw = append(nw, fill(d.item, sym))
			want(d.rem, mk(i))
			want(d.add, sym)
		case mode == 1: // removed
			want(d.rem, mk(i))
		case mode == 2: // added
			nw = append(nw, it, fill(d.item, sym))
			want(d.add, sym)
		default: // changed
			nw = append(nw, fill(d.other, mk(i)))
			want(d.chg, mk(i))
		}
	}
	if rev {
		for i, j := 0, len(nw)-1; i < j; i, j = i+1, j-1 {
			nw[i], nw[j] = nw[j], nw[i]
		}
	}
	text := func(l []string) string {
		return strings.ReplaceAll(d.open+strings.Join(l, "")+d.end, "^", ext)
	}
	s := textScn(text(old), text(nw))
	s.scope = scope
	for _, w := range wants {
		f := strings.Split(w, " ")
		s.expect(f[1], sev[f[2]], f[3], true, f[4:]...)
	}
	s.check()
}

// H_C02_wide: Bounds: parsed lists of 14 members (thorough 30) with names of 49 characters, one of which (any place) is replaced by a symbolic name, removed,
// added or changed, or all are replaced, in the same or reversed order.
func H_C02_wide() { wide("C02", tier(14, 30), typeScope...) }

// H_C03_wide: Bounds: parsed lists of 14 members (thorough 30) with names of 49 characters, one of which (any place) is replaced by a symbolic name, removed,
// added or changed, or all are replaced, in the same or reversed order.
func H_C03_wide() { wide("C03", tier(14, 30), typeScope...) }

// H_C04_wide: Bounds: parsed lists of 14 members (thorough 30) with names of 49 characters, one of which (any place) is replaced by a symbolic name, removed,
// added or changed, or all are replaced, in the same or reversed order.
func H_C04_wide() { wide("C04", tier(14, 30), "TYPE_ADDED", "TYPE_REMOVED", "TYPE_KIND_CHANGED") }

// H_C05_wide: Bounds: parsed lists of 14 members (thorough 30) with names of 49 characters, one of which (any place) is replaced by a symbolic name, removed,
// added or changed, or all are replaced, in the same or reversed order.
func H_C05_wide() { wide("C05", tier(14, 30), "FIELD_ADDED", "FIELD_REMOVED") }

// H_C06_wide: Bounds: parsed lists of 14 members (thorough 30) with names of 49 characters, one of which (any place) is replaced by a symbolic name, removed,
// added or changed, or all are replaced, in the same or reversed order.
func H_C06_wide() { wide("C06", tier(14, 30), "FIELD_ARGUMENT_ADDED", "FIELD_ARGUMENT_REMOVED") }

// H_C07_wide: Bounds: parsed lists of 14 members (thorough 30) with names of 49 characters, one of which (any place) is replaced by a symbolic name, removed,
// added or changed, or all are replaced, in the same or reversed order.
func H_C07_wide() { wide("C07", tier(14, 30), "INPUT_FIELD_ADDED", "INPUT_FIELD_REMOVED") }

// H_C08_wide: Bounds: parsed lists of 14 members (thorough 30) with names of 49 characters, one of which (any place) is replaced by a symbolic name, removed,
// added or changed, or all are replaced, in the same or reversed order.
func H_C08_wide() { wide("C08", tier(14, 30), "ENUM_VALUE_ADDED", "ENUM_VALUE_REMOVED") }

// H_C09_wide: Bounds: parsed lists of 14 members (thorough 30) with names of 49 characters, one of which (any place) is replaced by a symbolic name, removed,
// added or changed, or all are replaced, in the same or reversed order.
func H_C09_wide() {
	wide("C09", tier(14, 30), "UNION_MEMBER_ADDED", "UNION_MEMBER_REMOVED", "OBJECT_TYPE_INTERFACE_ADDED", "OBJECT_TYPE_INTERFACE_REMOVED")
}

// H_C10_wide: Bounds: parsed lists of 14 members (thorough 30) with names of 49 characters, one of which (any place) is replaced by a symbolic name, removed,
// added or changed, or all are replaced, in the same or reversed order.
func H_C10_wide() { wide("C10", tier(14, 30), dirScope...) }

// H_C11_wide: Bounds: parsed lists of 14 members (thorough 30) with names of 49 characters, one of which (any place) is replaced by a symbolic name, removed,
// added or changed, or all are replaced, in the same or reversed order.
func H_C11_wide() { wide("C11", tier(14, 30), dirScope...) }

// H_C13_wide: Bounds: parsed lists of 14 members (thorough 30) with names of 49 characters, one of which (any place) is replaced by a symbolic name, removed,
// added or changed, or all are replaced, in the same or reversed order.
func H_C13_wide() { wide("C13", tier(14, 30), depScope...) }

// H_C14_wide: Bounds: parsed lists of 14 members (thorough 30) with names of 49 characters, one of which (any place) is replaced by a symbolic name, removed,
// added or changed, or all are replaced, in the same or reversed order.
func H_C14_wide() {
	wide("C14", tier(14, 30), append(append([]string{}, defScope...), descScope...)...)
}

// H_C01_wide: Bounds: every kind of list of 14 members (thorough 30) with names of 49 characters, one of them symbolic, listed in order or out of order,
// compared with itself, its reverse, 3 rotations of it, it with two neighbours swapped at 4 places or it dealt out in another stride.
func H_C01_wide() {
	n := tier(14, 30)
	props := []string{"C02", "C03", "C04", "C05", "C06", "C07", "C08", "C09", "C10", "C11", "C13", "C14"}
	var ds []wideDoc
	for _, p := range props {
		ds = append(ds, wideDocs[p]...)
	}
	d := ds[nd.Choice("schema", len(ds))]
	ext := ""
	if d.ext && nd.Choice("extension", 2) == 1 {
		ext = "extend "
	}
	item := d.item
	if d.other != "" && nd.Choice("other", 2) == 1 {
		item = d.other
	}
	const prefix = "aLongNameWithA_CommonPrefix_of_48_characters_01"
	sym := prefix + nd.BytesOf("name", 2, "05aA")
	stride := []int{1, 11}[nd.Choice("stride", 2)]
	at := []int{0, 1, n / 2, n - 2}[nd.Choice("at", 4)]
	var names []string
	for i := 0; i < n; i++ {
		k := i * stride % n
		x := prefix + string([]byte{byte('0' + k/10), byte('0' + k%10)})
		if i == 2 {
			x = sym
		} else {
			nd.Assume(sym != x)
		}
		names = append(names, x)
	}
	var other []string
	switch nd.Choice("order", 5) {
	case 0:
		nd.Assume(at == 0 && stride > 1)
		other = names
	case 1:
		nd.Assume(at == 0)
		for i := range names {
			other = append(other, names[n-1-i])
		}
	case 2:
		other = append(append(other, names[at:]...), names[:at]...)
	case 3:

		other = append(other, names...)
		other[at], other[at+1] = other[at+1], other[at]
	case 4:
		nd.Assume(at == 0)
		for i := range names {
			other = append(other, names[i*11%n])
		}
	}
	text := func(l []string) string {
		t := d.open
		for _, x := range l {
			t += strings.ReplaceAll(item, "N", x)
		}
		return strings.ReplaceAll(t+d.end, "^", ext)
	}
	textScn(text(names), text(other)).noChange()
}
