package hcompare

import (
	"strings"

	"github.com/CrowdStrike/gql/pkg/compare"
	"github.com/CrowdStrike/gql/zzverif/nd"
)

// ---- Values of every shape, as the parser reads them. Texts which differ are different values; 0 and 1 stand for symbolic digits, b and c for
// symbolic letters.

var valueTexts = []string{
	"0", "1", "-1", "00000", "0.5", "0.50", "1e0", "-0", "b", "c", "true", "false", "null",
	`""`, `"b"`, `"c"`, `"0"`, `"true"`, `"null"`, `"bc"`, `"b "`, `" b"`, `"{b: 0}"`, `"[0]"`, `"\\"`, `"\""`, `"\n"`, `"\u00e9"`, `"e"`,
	`"""b"""`, `"""b c"""`,
	"[]", "[0]", "[1]", `["0"]`, "[b]", `["b"]`, "[0, 1]", "[1, 0]", "[0, 0]", "[[0], 1]", "[[0, 1]]", "[[0], [1]]", "[[]]", "[null]", "[{b: 0}]", "[{b: 0}, {b: 0}]",
	"{}", "{b: 0}", "{b: 1}", `{b: "0"}`, "{c: 0}", "{b: c}", `{b: "c"}`, "{b: {}}", "{b: []}", "{b: {c: 0}}", "{b: {c: 1}}", "{b: {b: 0}}", "{b: [0]}", "{b: 0, c: 1}", "{b: 0, c: 0}",
	"{b: {c: {b: 0}}}", "{b: {c: {b: 1}}}", "{b: [{c: 0}]}", "{b: [{c: 1}]}", "{b: null}",
	`"a long text that goes on and on and on and on and on and on and on and on 0"`, `"a long text that goes on and on and on and on and on and on and on and on 1"`,
	"[0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0]", "[0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 1]",
}

type valuePlace struct {
	text, typ, path, names string // in the text $ is the value
}

var valuePlaces = []valuePlace{
	{"^type T { f(a: J = $): Int }", "FIELD_ARGUMENT_DEFAULT_CHANGED", "T.f.a", "a T.f"},
	{"^interface T { f(a: J = $): Int }", "FIELD_ARGUMENT_DEFAULT_CHANGED", "T.f.a", "a T.f"},
	{"^input T { a: J = $ }", "INPUT_FIELD_DEFAULT_VALUE_CHANGED", "T.a", "T.a"},
	{"directive @d(a: J = $) on FIELD", "DIRECTIVE_ARGUMENT_DEFAULT_VALUE_CHANGED", "@d.a", "@d a"},
	{"^type T @d(a: $) { f: Int }", "DIRECTIVE_ARGUMENT_VALUE_CHANGED", "@d.a", "@d a T"},
	{"^interface T { f: Int @d(a: $) }", "DIRECTIVE_ARGUMENT_VALUE_CHANGED", "@d.a", "@d a T.f"},
	{"^input T { f: Int @d(a: $) }", "DIRECTIVE_ARGUMENT_VALUE_CHANGED", "@d.a", "@d a T.f"},
	{"^type T @d(a: $) @d(a: other) { f: Int }", "DIRECTIVE_CHANGED", "T", "@d T"},
}

// values compares two versions with a value each: the same text with the same or another digit or letter in it, or any two texts.
func values(lo, hi int) {
	p := valuePlaces[lo+nd.Choice("place", hi-lo)]
	ext := ""
	if strings.Contains(p.text, "^") && nd.Choice("extension", 2) == 1 {
		ext = "extend "
	}
	a := nd.Choice("old", len(valueTexts))
	b := nd.Choice("new", len(valueTexts))
	ta, tb := valueTexts[a], valueTexts[b]
	want := a != b
	if a == b && strings.Contains(ta, "1") {
		x, y := nd.BytesOf("digit", 1, "123456789"), nd.BytesOf("digit", 1, "123456789")
		want = x != y
		ta, tb = strings.ReplaceAll(ta, "1", x), strings.ReplaceAll(tb, "1", y)
	} else if a == b && strings.Contains(ta, "c") {
		x, y := nd.BytesOf("letter", 1, "cdC_"), nd.BytesOf("letter", 1, "cdC_")
		want = x != y
		ta, tb = strings.ReplaceAll(ta, "c", x), strings.ReplaceAll(tb, "c", y)
	}
	if (ta == `"bc"` || ta == `"b "` || ta == `"b"`) && strings.HasPrefix(tb, `"""`) || (tb == `"bc"` || tb == `"b "` || tb == `"b"`) && strings.HasPrefix(ta, `"""`) {
		nd.Assume(false) // a block string and a string may denote the same value
	}
	text := func(v string) string {
		return strings.ReplaceAll(strings.ReplaceAll(p.text, "^", ext), "$", v)
	}
	s := textScn(text(ta), text(tb))
	s.scope = append(append([]string{}, defScope...), dirScope...)
	s.expect(p.typ, dng, p.path, want, strings.Split(p.names, " ")...)
	s.check()
}

// H_C14_values: Bounds: any two of 72 values of every shape and nesting up to 3 (texts up to 80 bytes), or one with a symbolic digit or letter in it against
// another, as default of a field argument, input field or directive argument.
func H_C14_values() { values(0, 4) }

// H_C11_values: Bounds: as H_C14_values, for the argument of a directive applied once or twice to types and fields.
func H_C11_values() { values(4, 8) }

// alnum are the letters, digits and minus signs of the text, in order.
func alnum(s string) string {
	b := make([]byte, 0, len(s))
	for i := 0; i < len(s); i++ {
		if c := s[i]; c >= '0' && c <= '9' || c >= 'a' && c <= 'z' || c >= 'A' && c <= 'Z' || c == '-' {
			b = append(b, c)
		}
	}
	return string(b)
}

// H_C20_values: Bounds: any two of 72 values of every shape and nesting up to 3 (texts up to 80 bytes; quick: one against 6 others), a digit in one of them symbolic, as default of a
// field argument, input field or directive argument, or one of them absent.
func H_C20_values() {
	p := valuePlaces[nd.Choice("place", 4)]
	ext := ""
	if strings.Contains(p.text, "^") && nd.Choice("extension", 2) == 1 {
		ext = "extend "
	}
	a := nd.Choice("old", len(valueTexts)+1)
	b := 0
	if nd.Deep() {
		b = nd.Choice("new", len(valueTexts)+1)
	} else {
		b = (a + []int{1, 2, 5, 17, 31, 48}[nd.Choice("new", 6)]) % (len(valueTexts) + 1)
	}
	text := func(i int) (string, string) {
		v := ""
		if i < len(valueTexts) {
			v = valueTexts[i]
			if i == a && strings.Contains(v, "1") {
				v = strings.ReplaceAll(v, "1", nd.BytesOf("digit", 1, "123456789"))
			}
		}
		t := strings.ReplaceAll(p.text, "^", ext)
		if v == "" {
			return strings.ReplaceAll(t, " = $", ""), ""
		}
		return strings.ReplaceAll(t, "$", v), v
	}
	ta, va := text(a)
	tb, vb := text(b)
	s := textScn(ta, tb)
	n := 0
	for _, c := range compare.FindChangesInSchemas(s.o.doc, s.n.doc) {
		if string(c.GetChangeType()) != p.typ {
			continue
		}
		n++
		msg := alnum(c.GetMessage())
		nd.Obs("message", c.GetMessage())
		for _, v := range []string{va, vb} {
			if !strings.Contains(v, `\`) {
				nd.Assert(strings.Contains(msg, alnum(v)), "the message has the old and the new value")
			}
		}
	}
	nd.Reach("change")
	nd.Assert(n <= 1, "the change is reported once")
}
