package hlint

import (
	"errors"
	"strings"

	"github.com/vektah/gqlparser/v2/ast"

	lint "github.com/CrowdStrike/gql/cmd/linter"
	"github.com/CrowdStrike/gql/pkg/linter"
	"github.com/CrowdStrike/gql/zzverif/nd"
)

// ---- L11: schema texts with inline comments, and errors on any line.

// comment is one inline comment with what it names.
type comment struct {
	cmd   int // 0 none, 1 disable, 2 enable, 3 disable-line, 4 something else
	line  int
	names []string // the rules named, in lower case without blanks
}

var ruleNames = []string{"type-desc", "field-desc", "enum-caps"}

var commands = []string{"", "#lint-disable ", "#lint-enable ", "#lint-disable-line ", "#lint-disabled "}

// suppressed is the documented meaning of the comments.
func suppressed(cs []comment, rule string, line int) bool {
	off := false
	now := false
	for _, c := range cs {
		named := in(c.names, rule)
		switch c.cmd {
		case 1:
			off = nd.Or(nd.And(off, !nd.And(named, c.line < line)), nd.And(named, c.line < line))
		case 2:
			off = nd.And(off, !nd.And(named, c.line < line))
		case 3:
			now = nd.Or(now, nd.And(named, c.line == line))
		}
	}
	return nd.Or(off, now)
}

func in(l []string, s string) bool {
	r := false
	for _, x := range l {
		r = nd.Or(r, x == s)
	}
	return r
}

// reporter is a rule that reports the errors.
func reporter(errs linter.LintErrorsWithMetadata) []linter.LintRuleFunc {
	return []linter.LintRuleFunc{func(*ast.SchemaDocument) linter.LintErrorsWithMetadata {
		return append(linter.LintErrorsWithMetadata{}, errs...)
	}}
}

// judge lints the text with the errors and compares with the documented meaning.
func judge(text string, cs []comment, n, lines int, rules func(i int) string) {
	var errs linter.LintErrorsWithMetadata
	for i := 0; i < n; i++ {
		errs = append(errs, linter.LintErrorWithMetadata{Rule: linter.LintRule(rules(i)), Line: nd.Int("line", 1, lines), Column: i + 1, Err: errors.New("e" + nd.Itoa(i))})
	}
	judgeErrors(text, cs, errs)
}

func judgeErrors(text string, cs []comment, errs linter.LintErrorsWithMetadata) {
	got := lint.Lint("f.graphql", text, reporter(errs))
	kept := 0
	for _, e := range errs {
		k := 0
		for _, g := range got {
			if g.Err == e.Err {
				k++
			}
		}
		want := nd.If(suppressed(cs, string(e.Rule), e.Line), 0, 1)
		nd.Assert(k == want, "an error is suppressed exactly when the comments say so")
		kept += k
	}
	nd.Assert(kept == len(got), "no other error is returned")
	nd.Obs("kept", kept)
	if kept < len(errs) {
		nd.Reach("suppressed")
	}
	if kept > 0 {
		nd.Reach("kept")
	}
}

// slots is a schema with places for comments; the lines of the places are counted from the text itself.
func slots(parts []string, nl string, cs []comment, texts []string) (string, int) {
	t := ""
	line := 1
	add := func(s string) {
		t += s
		line += strings.Count(s, nl)
	}
	for i, p := range parts {
		add(strings.ReplaceAll(p, "\n", nl))
		if i < len(texts) {
			cs[i].line = line
			t += texts[i]
		}
	}
	return t, line
}

var schemas = [][]string{
	{"type A { f: Int } ", "\n", "\nenum B { X } ", "\n"},
	{"", "\n\"\"\"\n#lint-disable type-desc\n\"\"\"\ntype A {\n  f: Int ", "\n  \"#lint-disable field-desc\" g: Int\n}", "\n\n"},
	{"\ufeff\n\n# c\ntype A { ", "\n f: Int\n", "\n}\n", ""},
}

// H_L11_sequence: Bounds: 3 comments on different lines, each none, disable, enable, disable-line or an unknown command naming one of 3 rules; one error (thorough 2) of any of the rules
// on any line; 3 schemas (with descriptions that contain comment look-alikes), LF, CR or CRLF line ends (quick: LF for all, CR and CRLF for the second).
func H_L11_sequence() {
	which := nd.Choice("schema", len(schemas))
	nl := "\n"
	if which == 1 || nd.Deep() {
		nl = []string{"\n", "\r\n", "\r"}[nd.Choice("newline", 3)]
	}
	cs := make([]comment, 3)
	texts := make([]string, 3)
	for i := range cs {
		cs[i].cmd = nd.Choice("command", 5)
		if cs[i].cmd > 0 {
			r := ruleNames[nd.Choice("rule", tier(2, 3))]
			cs[i].names = []string{r}
			texts[i] = commands[cs[i].cmd] + r
		}
	}
	text, lines := slots(schemas[which], nl, cs, texts)
	judge(text, cs, tier(1, 2), lines+1, func(int) string { return nd.Pick("rule", ruleNames...) })
}

// toggled is the name with any letter in any case.
func toggled(label, name string) string {
	out := ""
	for i := 0; i < len(name); i++ {
		if c := name[i : i+1]; c == "-" {
			out += c
		} else {
			out += nd.BytesOf(label, 1, c+strings.ToUpper(c))
		}
	}
	return out
}

// H_L11_list: Bounds: one disable, enable (after a disable of everything) or disable-line comment with 1..3 comma-separated rules, one of them in any letter case, blanks
// in 4 ways (8 in thorough), the error's rule any of 3, on any line.
func H_L11_list() {
	cs := make([]comment, 2)
	texts := make([]string, 2)
	c := 1 + nd.Choice("command", 3)
	if c == 2 {
		cs[0] = comment{cmd: 1, names: ruleNames}
		texts[0] = "#lint-disable type-desc,field-desc,enum-caps"
	}
	cs[1].cmd = c
	n := 1 + nd.Choice("n", 3)
	pads := [][2]string{{"", ""}, {" ", ""}, {"", " "}, {"\t ", "\t"}, {" ", " "}, {"", "  "}, {"   ", "\t"}, {"\t", " "}}
	pad := pads[nd.Choice("pad", tier(4, 8))]
	which := nd.Choice("toggled", n)
	list := ""
	for i := 0; i < n; i++ {
		r := ruleNames[nd.Choice("rule", 3)]
		cs[1].names = append(cs[1].names, r)
		if i > 0 {
			list += ","
		}
		if i == which {
			r = toggled("case", r)
		}
		list += pad[0] + r + pad[1]
	}
	texts[1] = commands[c] + list
	text, lines := slots(schemas[0], "\n", cs, texts)
	judge(text, cs, 1, lines+1, func(int) string { return nd.Pick("rule", ruleNames...) })
}

// H_L11_garbage: Bounds: a disable, enable or disable-line comment naming any text of 0..4 (thorough 6) printable characters (no rule), with a rule name before or after it as
// another entry or not; the error's rule any of 3.
func H_L11_garbage() {
	cs := make([]comment, 2)
	texts := make([]string, 2)
	c := 1 + nd.Choice("command", 3)
	if c == 2 {
		cs[0] = comment{cmd: 1, names: ruleNames}
		texts[0] = "#lint-disable type-desc,field-desc,enum-caps"
	}
	cs[1].cmd = c
	g := nd.BytesOf("garbage", nd.Choice("garbage length", tier(5, 7)), printable)
	switch nd.Choice("with", 3) {
	case 1:
		g = "field-desc," + g
		cs[1].names = []string{"field-desc"}
	case 2:
		g += ",field-desc"
		cs[1].names = []string{"field-desc"}
	}
	texts[1] = commands[c] + g
	text, lines := slots(schemas[0], "\n", cs, texts)
	judge(text, cs, 1, lines+1, func(int) string { return nd.Pick("rule", ruleNames...) })
}

// H_L11_around: Bounds: a disable, enable or disable-line comment with a rule name, alone or as the first or last of two entries, that has any 0..2 (thorough 3) of 10 characters before it
// and any 0..2 after it: it applies if those are blanks; the error's rule any of 3, on any line.
func H_L11_around() {
	cs := make([]comment, 2)
	texts := make([]string, 2)
	c := 1 + nd.Choice("command", 3)
	if c == 2 {
		cs[0] = comment{cmd: 1, names: ruleNames}
		texts[0] = "#lint-disable type-desc,field-desc,enum-caps"
	}
	cs[1].cmd = c
	const chars = " \tax-_\"*#."
	blank := func(s string, n int) bool {
		r := true
		for i := 0; i < n; i++ {
			r = nd.And(r, nd.Or(nd.At(s, i) == ' ', nd.At(s, i) == '\t'))
		}
		return r
	}
	nb, na := nd.Choice("before", tier(3, 4)), nd.Choice("after", tier(3, 4))
	bs, as := nd.BytesOf("before", nb, chars), nd.BytesOf("after", na, chars)
	g := bs + "field-desc" + as
	cs[1].names = []string{nd.IfStr(nd.And(blank(bs, nb), blank(as, na)), "field-desc", "-")}
	switch nd.Choice("with", 3) {
	case 1:
		g = "type-desc," + g
		cs[1].names = append(cs[1].names, "type-desc")
	case 2:
		g += ",type-desc"
		cs[1].names = append(cs[1].names, "type-desc")
	}
	texts[1] = commands[c] + g
	text, lines := slots(schemas[0], "\n", cs, texts)
	judge(text, cs, 1, lines+1, func(int) string { return nd.Pick("rule", ruleNames...) })
}

// H_L11_ordinary: Bounds: a comment that would be a disable, enable or disable-line comment but for up to 2 of 8 characters before it or after the command, or one byte of the command that is any printable one; the error's
// rule any of 3, on any line. It applies only if it is exactly the command, a blank, and entries.
func H_L11_ordinary() {
	cs := make([]comment, 2)
	texts := make([]string, 2)
	c := 1 + nd.Choice("command", 3)
	if c == 2 {
		cs[0] = comment{cmd: 1, names: ruleNames}
		texts[0] = "#lint-disable type-desc,field-desc,enum-caps"
	}
	cs[1].cmd = c
	const chars = " \ta-#:,\""
	cmd := strings.TrimSuffix(commands[c], " ")
	ok := true
	switch nd.Choice("where", 3) {
	case 0:
		n := 1 + nd.Choice("before", 2)
		cmd = "#" + nd.BytesOf("before", n, chars) + cmd[nd.Choice("hash", 2):]
		ok = false
	case 1:
		n := 1 + nd.Choice("after", 2)
		s := nd.BytesOf("after", n, chars)
		cmd += s
		ok = nd.Or(nd.At(s, 0) == ' ', nd.At(s, 0) == '\t')
		for i := 1; i < n; i++ {
			ok = nd.And(ok, nd.Or(nd.At(s, i) == ' ', nd.Or(nd.At(s, i) == '\t', nd.At(s, i) == ',')))
		}
	case 2:
		i := 1 + nd.Choice("at", len(cmd)-1)
		b := nd.BytesOf("byte", 1, printable)
		ok = nd.At(b, 0) == cmd[i]
		cmd = cmd[:i] + b + cmd[i+1:]
	}
	cs[1].names = []string{nd.IfStr(ok, "field-desc", "-")}
	texts[1] = cmd + " field-desc"
	text, lines := slots(schemas[0], "\n", cs, texts)
	judge(text, cs, 1, lines+1, func(int) string { return nd.Pick("rule", ruleNames...) })
}

// H_L11_wide: Bounds: 16 comments (thorough 40) on lines of their own, all of one command, alternating, or in threes, the one at one of 3 (thorough 8) places replaced by any command; each names one of 3 rules
// or all of 9; 14 errors, one of any of 3 rules on any line.
func H_L11_wide() {
	n := tier(16, 40)
	pattern := nd.Choice("pattern", 4)
	at := nd.Choice("at", tier(3, 8)) * 5
	other := nd.Choice("command", 5)
	all := nd.Choice("rules", 2) == 1
	names := []string{"type-desc", "args-desc", "field-desc", "enum-caps", "enum-desc", "field-camel", "type-caps", "relay-conn-type", "relay-conn-args"}
	cs := make([]comment, n)
	text := ""
	for i := range cs {
		c := [][]int{{1}, {1, 2}, {3, 1, 4}, {2, 3, 1}}[pattern]
		cs[i].cmd, cs[i].line = c[i%len(c)], i+1
		if i == at {
			cs[i].cmd = other
		}
		if cs[i].cmd > 0 {
			if all && i%2 == 0 {
				cs[i].names = names
			} else {
				cs[i].names = names[i%3 : i%3+1]
			}
			text += commands[cs[i].cmd] + strings.Join(cs[i].names, ", ")
		}
		text += "\n"
	}
	text += "scalar A\n"
	var errs linter.LintErrorsWithMetadata
	for i := 0; i < 14; i++ {
		e := linter.LintErrorWithMetadata{Rule: linter.LintRule(names[i%9]), Line: (i*7)%(n+1) + 1, Column: i%5 + 1, Err: errors.New("e" + nd.Itoa(i))}
		if i == 3 {
			e.Rule, e.Line = linter.LintRule(names[nd.Choice("rule", 3)]), nd.Int("line", 1, n+2)
		}
		errs = append(errs, e)
	}
	judgeErrors(text, cs, errs)
}
