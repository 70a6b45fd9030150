package hlint

import (
	"strings"

	lint "github.com/CrowdStrike/gql/cmd/linter"
	"github.com/CrowdStrike/gql/pkg/linter"
	"github.com/CrowdStrike/gql/zzverif/nd"
)

// ---- L13

// documented is every rule of the documentation, in its order.
var documented = []string{"type-desc", "args-desc", "field-desc", "enum-caps", "enum-desc", "field-camel", "type-caps", "relay-conn-type", "relay-conn-args"}

// violations breaks every documented rule.
const violations = "type a_B { F_: Int }\ntype Q { f(x: Int): AConnection }\ntype AConnection { x: Int }\nenum E { v }\n"

// nameOf tells which rule a function is by what it reports.
func nameOf(f linter.LintRuleFunc) string {
	errs := f(parse("f.graphql", violations))
	if len(errs) == 0 {
		return ""
	}
	return string(errs[0].Rule)
}

// padded is the name with blanks around it, and any letter in any case.
func padded(n string) string {
	pads := [][2]string{{"", ""}, {" ", ""}, {"", " "}, {"\t ", " \t"}, {"\n", "  "}}
	p := pads[nd.Choice("pad", len(pads))]
	return p[0] + n + p[1]
}

// selects states that the selection yields the wanted rules, or fails if bad.
func selects(given, want []string, bad bool) {
	got, err := lint.FindTheRulesToApply(given)
	nd.Obs("n", len(got))
	nd.Obs("failed", err != nil)
	nd.Assert((err != nil) == bad, "the selection fails exactly when a name is unknown")
	if bad {
		nd.Assert(len(got) == 0, "no rule is selected when a name is unknown")
		nd.Reach("rejected")
		return
	}
	nd.Assert(len(got) == len(want), "as many rules as named")
	for i, f := range got {
		nd.Assert(nameOf(f) == want[i], "the rules are those named, in the order given")
	}
	nd.Reach("selected")
}

// H_L13_all: Bounds: none; no rule named.
func H_L13_all() {
	var given []string
	if nd.Choice("empty", 2) == 1 {
		given = []string{}
	}
	got, err := lint.FindTheRulesToApply(given)
	nd.Assert(err == nil, "the selection succeeds")
	nd.Assert(len(got) == len(linter.AllTheRules), "every available rule is applied once")
	seen := map[string]int{}
	for _, f := range got {
		seen[nameOf(f)]++
	}
	for _, r := range linter.AllTheRules {
		nd.Assert(seen[string(r.Name)] == 1, "every available rule is applied once")
	}
	for _, n := range documented {
		nd.Assert(seen[n] == 1, "every documented rule is applied once")
	}
	nd.Reach("all")
}

// H_L13_pairs: Bounds: two of the 9 rules in any order, each with blanks around it in 5 ways.
func H_L13_pairs() {
	a := nd.Choice("first", 9)
	b := nd.Choice("second", 9)
	nd.Assume(a != b)
	selects([]string{padded(documented[a]), padded(documented[b])}, []string{documented[a], documented[b]}, false)
}

// H_L13_case: Bounds: any of the 9 rules with each of its letters in any case, alone, before or after another rule.
func H_L13_case() {
	a := nd.Choice("rule", 9)
	t := toggled("case", documented[a])
	o := documented[(a+4)%9]
	switch nd.Choice("where", 3) {
	case 0:
		selects([]string{t}, []string{documented[a]}, false)
	case 1:
		selects([]string{t, o}, []string{documented[a], o}, false)
	case 2:
		selects([]string{o, t}, []string{o, documented[a]}, false)
	}
}

// H_L13_order: Bounds: 3 (thorough 4) different rules out of 9 in any order.
func H_L13_order() {
	var l []string
	for i := 0; i < tier(3, 4); i++ {
		r := documented[nd.Choice("rule", 9)]
		for _, x := range l {
			nd.Assume(x != r)
		}
		l = append(l, r)
	}
	selects(l, l, false)
}

// H_L13_unknown: Bounds: any text of up to 6 (thorough 8) bytes as a name (none is a rule), alone, first, last or in the middle.
func H_L13_unknown() {
	g := nd.StrOf("garbage", 0, tier(6, 8), printable+"\t\n")
	o, p := documented[nd.Choice("rule", 9)], "type-desc"
	nd.Assume(o != p)
	selects([][]string{{g}, {g, o}, {o, g}, {p, g, o}}[nd.Choice("where", 4)], nil, true)
}

// H_L13_near: Bounds: any of the 9 rules with one byte replaced by any other printable byte, inserted or left out, alone or after a valid rule.
func H_L13_near() {
	n := documented[nd.Choice("rule", 9)]
	i := nd.Choice("at", len(n))
	c := nd.BytesOf("byte", 1, printable)
	var g string
	switch nd.Choice("how", 4) {
	case 0:
		nd.Assume(strings.ToLower(c) != n[i:i+1])
		g = n[:i] + c + n[i+1:]
		nd.Assume(strings.TrimSpace(g) == g)
	case 1:
		g = n[:i] + n[i+1:]
	case 2:
		g = n[:i] + c + n[i:]
		nd.Assume(strings.TrimSpace(g) == g)
	case 3:
		g = n + c
		nd.Assume(strings.TrimSpace(g) == g)
	}
	selects([][]string{{g}, {"type-caps", g}}[nd.Choice("where", 2)], nil, true)
}

var printable = func() (s string) {
	for b := 0x20; b < 0x7f; b++ {
		s += string(rune(b))
	}
	return
}()
