// Package gen holds schema texts shared by the harnesses.
package gen

import "strings"

// Menu is one declaration of every shape the grammar allows, with N for a symbolic name.
var Menu = []string{
	"",
	"schema { query: N }",
	"schema @a(b: [1, {c: \"d\"}]) { mutation: N subscription: Q }",
	"extend schema @a",
	"extend schema { query: N }",
	"scalar N",
	"\"desc\" scalar N @a(b: v)",
	"extend scalar N @a",
	"type N",
	"type N implements A & N @a(b: 1) @a { \"desc\" f(a: [N!]! = [1, null] @a, \"\"\"d\"\"\" b: I = {x: {y: E}}): N! @deprecated g: [[N]!] }",
	"type N implements A { f(b: I): N @deprecated(reason: \"r\") @a(b: 1.5) }",
	"type N { f: Int }",
	"extend type N @a",
	"extend type N implements A { g(x: N): [N] }",
	"interface N { f(a: Int = 1): N }",
	"interface N @a",
	"extend interface N @a { h: N }",
	"union N",
	"union N @a = | A | N",
	"extend union N = B",
	"enum N",
	"enum N { A \"desc\" B @deprecated(reason: \"\"\"block\"\"\") N @a }",
	"enum N { B @deprecated N }",
	"extend enum N { D }",
	"input N",
	"input N { a: Int = 1 @deprecated b: [N!] = [{a: true}] }",
	"input N @a { a: Int! @a b: N = null }",
	"extend input N { c: Int }",
	"directive @N on FIELD",
	"\"desc\" directive @N(a: Int = 1 @a, b: N!) repeatable on | FIELD | ENUM_VALUE",
	"directive @N(b: N, c: [Int!]!) on OBJECT",
}

// Text fills the menu item with the name.
func Text(item, name string) string {
	out := ""
	last := 0
	for i := 0; i < len(item); i++ {
		if item[i] == 'N' && !letter(item, i-1) && !letter(item, i+1) {
			out += item[last:i] + name
			last = i + 1
		}
	}
	return out + item[last:]
}

func letter(s string, i int) bool {
	return i >= 0 && i < len(s) && (s[i] >= 'A' && s[i] <= 'Z' || s[i] >= 'a' && s[i] <= 'z')
}

// Rewrite gives a text with other blanks, line ends, commas and comments between its tokens (the texts here have no strings with blanks),
// other forms of strings, or without the blanks that are not needed. How it is done is number k of Rewrites; c is a byte of a comment.
func Rewrite(t string, k int, c string) string {
	all := func(sep string) string { return strings.ReplaceAll(strings.ReplaceAll(t, "\n", " "), " ", sep) }
	switch k {
	case 0:
		return all("\n")
	case 1:
		return all("\r\n")
	case 2:
		return all("\r")
	case 3:
		return all("\t  ")
	case 4:
		return all(" ,,\n, ")
	case 5:
		return all("\n\n\n\t")
	case 6:
		return all(" #" + c + "\n")
	case 7:
		return "#" + c + "\n\n" + all("\n# type A { \""+c+"\n") + " #" + c
	case 8:
		return "\ufeff" + t + "\n\n"
	case 9:
		for _, s := range []string{" {", "{ ", " }", "} ", " (", "( ", " )", ") ", " =", "= ", ": ", " |", "| ", " &", "& ", " @", " [", "] ", " \"", "\" "} {
			t = strings.ReplaceAll(t, s, strings.TrimSpace(s))
		}
		return t
	case 10:
		return strings.ReplaceAll(t, " \"d\"", " \"\"\"\n  d\n\"\"\"")
	case 11:
		return strings.ReplaceAll(t, "\"\"\"", "\"")
	case 12:
		return strings.ReplaceAll(strings.ReplaceAll(strings.ReplaceAll(t, "= A |", "= | A |"), "on FIELD", "on | FIELD"), "implements A", "implements & A")
	}
	if k == 14 && !strings.Contains(t, "\"\"\"") && !strings.Contains(t, "\\") {
		return strings.ReplaceAll(t, "\"", "\"\"\"")
	}
	return strings.ReplaceAll(t, "\"desc\"", "\"\\u0064esc\"")
}

// Rewrites is how many ways there are.
const Rewrites = 15
