// Package hlex holds the harnesses of the properties of the linter's lexer.
package hlex

import (
	"strings"
	"unicode/utf8"

	"github.com/vektah/gqlparser/v2/ast"
	"github.com/vektah/gqlparser/v2/gqlerror"
	reflex "github.com/vektah/gqlparser/v2/lexer"

	"github.com/CrowdStrike/gql/cmd/linter/lexer"
	"github.com/CrowdStrike/gql/zzverif/nd"
)

func tier(quick, deep int) int {
	if nd.Deep() {
		return deep
	}
	return quick
}

// ---- texts

// some is a string of min..max bytes from the alphabet (a case split over the length).
func some(label string, min, max int, alphabet string) string {
	return nd.BytesOf(label, min+nd.Choice(label+" length", max-min+1), alphabet)
}

// anything is a string of up to max bytes (a case split over the length).
func anything(label string, max int) string {
	return nd.Bytes(label, nd.Choice(label+" length", max+1))
}

// free is any short text.
func free() string { return nd.Str("text", tier(3, 4)) }

// str is a string with any content: short bytes, escapes, an unfinished one.
func str() string {
	body := anything("body", tier(3, 4))
	return "\"" + []string{"", "x\\n", "\\u00e9"}[nd.Choice("before", 3)] + body + []string{"\"", "", "\\\"#\" # c\n"}[nd.Choice("after", 3)]
}

// escape is an escape sequence in a string, complete or not.
func escape() string {
	hex := "0a9fAFgG\"\\/"
	return "a \"\\" + nd.BytesOf("escape", 1, "bfnrtu\"/\\x\n") + some("hex", 0, 4, hex) + []string{"\" b", "12\" b", "", "\n"}[nd.Choice("after", 4)]
}

// hexes is a unicode escape with any 4 digits.
func hexes() string {
	return "\"é\\u" + nd.BytesOf("hex", 4, "0189aAfFdDg") + "z\" b"
}

// block is a block string with any content.
func block() string {
	return "\"\"\"" + anything("body", tier(3, 4)) + []string{"\"\"\"", "", "\"", "\\\"\"\" #x\n\"\"\"#c"}[nd.Choice("after", 4)]
}

// indented is a block string of several lines with any indentation.
func indented() string {
	ind := " \tx\n\r\""
	return "a\n \"\"\"" + some("first", 0, tier(3, 4), ind) + []string{"\n", "\r\n  "}[nd.Choice("newline", 2)] + some("second", 0, tier(3, 4), ind) + "y\"\"\" b"
}

// number is anything made of the characters of numbers.
func number() string {
	return some("number", 1, tier(4, 5), "019-+.eE_a \"") + []string{"", " x", "#c\ny"}[nd.Choice("after", 3)]
}

// blanks is a run of ignored characters and comments between two names.
func blanks() string {
	return "a" + some("blanks", 0, tier(6, 7), " \t,\n\r#") + "b" + []string{"", "#", "#\xef\xbb\xbfc\r\n d"}[nd.Choice("after", 3)]
}

// marks are byte order marks, whole or broken, and other multi-byte characters.
func marks() string {
	return []string{"", "\xef\xbb\xbf", "\xef\xbb", "é", "#é"}[nd.Choice("first", 5)] + some("bytes", 0, tier(3, 4), "\xef\xbb\xbf\xc3\xa9a#\n") + "a"
}

// comment is a comment with any content.
func comment() string {
	return []string{"{\n\t", "", "a "}[nd.Choice("before", tier(2, 3))] + "#" + anything("comment", tier(3, 4)) + []string{"", "\nb", "\r\n#d\rb", "\""}[nd.Choice("after", 4)]
}

// pieces is a text of several tokens with comments.
func pieces() string {
	menu := []string{"!", "$", "&", "(", ")", "...", ":", "=", "@", "[", "]", "{", "}", "|", "#c", "# \"x\n", "name", "_1", "12", "-1.5e3", "\"s#\"", "\"\"\"b\n #x\"\"\"", "\n", "\r\n", "\xef\xbb\xbf", "..", "'", "\"", "%", ",\t"}
	t := ""
	for i := 0; i < tier(2, 3); i++ {
		t += menu[nd.Choice("piece", len(menu))]
	}
	return t + anything("end", 1)
}

// ---- X01

// agree states that both lexers give the same tokens for the text.
func agree(t string) {
	src := &ast.Source{Name: "f.graphql", Input: t}
	a := lexer.New(src)
	b := reflex.New(src)
	nd.Obs("text", t)
	for n := 0; ; n++ {
		if n > 2*len(t)+2 {
			nd.Fail("the lexer makes progress")
		}
		x, xerr := a.ReadToken()
		for xerr == nil && x.Kind == lexer.Comment {
			x, xerr = a.ReadToken()
		}
		y, yerr := b.ReadToken()
		nd.Assert((xerr == nil) == (yerr == nil), "both lexers fail at the same point")
		nd.Assert(x.Kind.Name() == y.Kind.Name() && x.Kind.String() == y.Kind.String(), "both lexers see the same kind of token")
		nd.Assert(x.Value == y.Value, "both lexers see the same value")
		nd.Assert(x.Pos.Start == y.Pos.Start && x.Pos.End == y.Pos.End, "both lexers see the same extent")
		nd.Assert(x.Pos.Line == y.Pos.Line && x.Pos.Column == y.Pos.Column, "both lexers see the same line and column")
		nd.Assert(x.Pos.Src == y.Pos.Src, "both lexers give the source")
		if xerr != nil {
			e, f := xerr.(*gqlerror.Error), yerr.(*gqlerror.Error)
			nd.Assert(e.Message == f.Message, "both lexers give the same message")
			nd.Assert(len(e.Locations) == len(f.Locations) && e.Locations[0] == f.Locations[0], "both lexers give the same place of the error")
			nd.Reach("error")
			return
		}
		if x.Kind == lexer.EOF {
			nd.Obs("tokens", n)
			nd.Reach("end")
			return
		}
	}
}

// H_X01_free: Bounds: any text of up to 3 bytes (thorough 4).
func H_X01_free() { agree(free()) }

// H_X01_string: Bounds: a string with up to 3 arbitrary bytes (thorough 4) after any of 3 beginnings, closed or not.
func H_X01_string() { agree(str()) }

// H_X01_escape: Bounds: any escape character out of 11 followed by up to 4 characters out of 11, with 4 endings.
func H_X01_escape() { agree(escape()) }

// H_X01_hex: Bounds: a unicode escape with 4 characters out of 11 (digits and letters of both cases).
func H_X01_hex() { agree(hexes()) }

// H_X01_block: Bounds: a block string with up to 3 arbitrary bytes (thorough 4), with 4 endings.
func H_X01_block() { agree(block()) }

// H_X01_indented: Bounds: a block string of two or more lines, each with up to 3 (thorough 4) blanks, tabs, letters, quotes or line ends.
func H_X01_indented() { agree(indented()) }

// H_X01_number: Bounds: up to 4 (thorough 5) characters of numbers, with 3 endings.
func H_X01_number() { agree(number()) }

// H_X01_blanks: Bounds: up to 6 (thorough 7) blanks, tabs, commas, line ends and # between two names, with 3 endings.
func H_X01_blanks() { agree(blanks()) }

// H_X01_marks: Bounds: up to 3 (thorough 4) bytes of byte order marks and accented letters after 5 beginnings.
func H_X01_marks() { agree(marks()) }

// H_X01_comment: Bounds: a comment of up to 3 (thorough 4) arbitrary bytes with 2 (thorough 3) beginnings and 4 endings.
func H_X01_comment() { agree(comment()) }

// H_X01_pieces: Bounds: 2 (thorough 3) of 30 pieces and up to one arbitrary byte.
func H_X01_pieces() { agree(pieces()) }

// ---- X02

type note struct {
	text      string
	line, col int // col 0: not stated
	at        int // characters before it
}

// notes are the comments of a text, by definition.
func notes(t string) (l []note) {
	line, col, runes := 1, 1, 0
	crlf := false
	i := 0
	step := func() { // one character that is no line end
		w := 1
		if t[i] >= 0x80 {
			_, w = utf8.DecodeRuneInString(t[i:])
		}
		i += w
		col++
		runes++
	}
	newline := func() {
		crlf = false
		if t[i] == '\r' && i+1 < len(t) && t[i+1] == '\n' {
			crlf = true
			i++
			runes++
		}
		i++
		runes++
		line++
		col = 1
	}
	for i < len(t) {
		switch {
		case t[i] == '#':
			n := note{line: line, col: col, at: runes}
			if crlf {
				n.col = 0
			}
			j := i
			for i < len(t) && (t[i] >= 0x20 || t[i] == '\t') {
				step()
			}
			n.text = t[j:i]
			l = append(l, n)
		case strings.HasPrefix(t[i:], "\"\"\""):
			step()
			step()
			step()
			for i < len(t) && !strings.HasPrefix(t[i:], "\"\"\"") {
				if strings.HasPrefix(t[i:], "\\\"\"\"") {
					step()
					step()
					step()
					step()
				} else if t[i] == '\n' || t[i] == '\r' {
					newline()
				} else {
					step()
				}
			}
			if i < len(t) {
				step()
				step()
				step()
			}
		case t[i] == '"':
			step()
			for i < len(t) && t[i] != '"' && t[i] != '\n' && t[i] != '\r' {
				if t[i] == '\\' && i+1 < len(t) {
					step()
				}
				step()
			}
			if i < len(t) && t[i] == '"' {
				step()
			}
		case t[i] == '\n' || t[i] == '\r':
			newline()
		default:
			step()
		}
	}
	return
}

// tokens states that the comment tokens of the text are its comments.
func tokens(t string) {
	want := notes(t)
	l := lexer.New(&ast.Source{Name: "f.graphql", Input: t})
	nd.Obs("text", t)
	k := 0
	for n := 0; ; n++ {
		if n > len(t)+1 {
			nd.Fail("the lexer makes progress")
		}
		x, err := l.ReadToken()
		if err != nil {
			for _, w := range want[k:] {
				nd.Assert(w.at >= x.Pos.Start, "no comment is missing before an error")
			}
			nd.Reach("error")
			return
		}
		if x.Kind == lexer.EOF {
			break
		}
		if x.Kind != lexer.Comment {
			continue
		}
		nd.Assert(k < len(want), "no other comment token")
		w := want[k]
		nd.Assert(x.Value == w.text, "a comment token holds the comment")
		nd.Assert(x.Pos.Line == w.line, "a comment token has the line of the comment")
		nd.Assert(w.col == 0 || x.Pos.Column == w.col, "a comment token has the column of the comment")
		nd.Assert(x.Pos.Start == w.at, "a comment token has the start of the comment")
		nd.Assert(x.Pos.End-x.Pos.Start == utf8.RuneCountInString(w.text), "a comment token has the extent of the comment")
		k++
	}
	nd.Assert(k == len(want), "every comment has a token")
	nd.Obs("comments", k)
	if k > 0 {
		nd.Reach("comment")
	}
	nd.Reach("end")
}

// H_X02_free: Bounds: any text of up to 3 bytes (thorough 4).
func H_X02_free() { tokens(free()) }

// H_X02_string: Bounds: a string with up to 3 arbitrary bytes (thorough 4) after any of 3 beginnings, closed or not.
func H_X02_string() { tokens(str()) }

// H_X02_block: Bounds: a block string with up to 3 arbitrary bytes (thorough 4), with 4 endings.
func H_X02_block() { tokens(block()) }

// H_X02_indented: Bounds: a block string of two or more lines, each with up to 3 (thorough 4) blanks, tabs, letters, quotes or line ends.
func H_X02_indented() { tokens(indented()) }

// H_X02_blanks: Bounds: up to 6 (thorough 7) blanks, tabs, commas, line ends and # between two names, with 3 endings.
func H_X02_blanks() { tokens(blanks()) }

// H_X02_marks: Bounds: up to 3 (thorough 4) bytes of byte order marks and accented letters after 5 beginnings.
func H_X02_marks() { tokens(marks()) }

// H_X02_comment: Bounds: a comment of up to 3 (thorough 4) arbitrary bytes with 2 (thorough 3) beginnings and 4 endings.
func H_X02_comment() { tokens(comment()) }

// H_X02_pieces: Bounds: 2 (thorough 3) of 30 pieces and up to one arbitrary byte.
func H_X02_pieces() { tokens(pieces()) }

// H_X02_quotes: Bounds: up to 5 (thorough 6) quotes, backslashes, #, letters and line ends, before 2 endings.
func H_X02_quotes() {
	tokens(some("quotes", 0, tier(5, 6), "\"\\#a\n") + []string{"", "# \"c\"\n"}[nd.Choice("after", 2)])
}
