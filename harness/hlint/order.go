package hlint

import (
	"errors"

	"github.com/vektah/gqlparser/v2/ast"
	"github.com/vektah/gqlparser/v2/parser"

	lint "github.com/CrowdStrike/gql/cmd/linter"
	"github.com/CrowdStrike/gql/pkg/linter"
	"github.com/CrowdStrike/gql/zzverif/gen"
	"github.com/CrowdStrike/gql/zzverif/nd"
)

// ---- L10

// H_L10_rules: Bounds: up to 3 rules of the caller with up to 4 errors in all (thorough 5), any lines and columns 1..99.
func H_L10_rules() {
	n := upto("errors", 4, 5)
	var all []linter.LintErrorWithMetadata
	rules := make([]linter.LintRuleFunc, 3)
	per := make([]linter.LintErrorsWithMetadata, len(rules))
	r := 0
	for i := 0; i < n; i++ {
		if r < 2 && i > 0 {
			r += nd.Choice("next", 2)
		}
		e := linter.LintErrorWithMetadata{Rule: linter.LintRule([]string{"a", "b", "c"}[r]), Line: nd.Int("line", 1, 99), Column: nd.Int("column", 1, 99),
			Err: errors.New([]string{"e0", "e1", "e2", "e3", "e4"}[i])}
		all = append(all, e)
		per[r] = append(per[r], e)
	}
	for i := range rules {
		l := per[i]
		rules[i] = func(*ast.SchemaDocument) linter.LintErrorsWithMetadata { return l }
	}
	got := lint.Lint("f.graphql", "type A { f: Int }\n", rules)
	nd.Assert(len(got) == n, "as many errors as the rules reported")
	for i, g := range got {
		nd.Obs("err", g.Err.Error())
		if i > 0 {
			p := got[i-1]
			nd.Assert(nd.Or(p.Line < g.Line, nd.And(p.Line == g.Line, p.Column <= g.Column)), "errors are in source order")
		}
	}
	for _, a := range all {
		k := 0
		for _, g := range got {
			if g.Err == a.Err {
				k++
				nd.Assert(nd.And(g.Line == a.Line, g.Column == a.Column), "an error keeps its position")
				nd.Assert(g.Rule == a.Rule, "an error keeps its rule")
			}
		}
		nd.Assert(k == 1, "each error is returned once")
	}
	if n > 2 {
		nd.Reach("several")
	}
}

// H_L10_wide: Bounds: 14 or 30 errors (thorough also 60) of 2 rules, on lines in ascending, descending, mixed order or all on one line, one of them (4 places) at any line and column 1..32.
func H_L10_wide() {
	n := []int{14, 30, 60}[nd.Choice("errors", tier(2, 3))]
	order := nd.Choice("order", 4)
	at := nd.Choice("at", 4) * n / 4
	var all []linter.LintErrorWithMetadata
	per := make([]linter.LintErrorsWithMetadata, 2)
	for i := 0; i < n; i++ {
		line := []int{i + 1, n - i, (i*7)%13 + 1, 3}[order]
		e := linter.LintErrorWithMetadata{Rule: linter.LintRule([]string{"a", "b"}[i%2]), Line: line, Column: (i*5)%11 + 1, Err: errors.New("e" + nd.Itoa(i))}
		if i == at {
			e.Line, e.Column = nd.Int("line", 1, 32), nd.Int("column", 1, 32)
		}
		all = append(all, e)
		per[i%2] = append(per[i%2], e)
	}
	rules := []linter.LintRuleFunc{
		func(*ast.SchemaDocument) linter.LintErrorsWithMetadata { return per[0] },
		func(*ast.SchemaDocument) linter.LintErrorsWithMetadata { return per[1] },
	}
	got := lint.Lint("f.graphql", "type A { f: Int }\n", rules)
	nd.Assert(len(got) == n, "as many errors as the rules reported")
	for i, g := range got {
		if i > 0 {
			p := got[i-1]
			nd.Assert(nd.Or(p.Line < g.Line, nd.And(p.Line == g.Line, p.Column <= g.Column)), "errors are in source order")
		}
	}
	for _, a := range all {
		k := 0
		for _, g := range got {
			if g.Err == a.Err {
				k++
				nd.Assert(nd.And(g.Line == a.Line, g.Column == a.Column), "an error keeps its position")
				nd.Assert(g.Rule == a.Rule, "an error keeps its rule")
			}
		}
		nd.Assert(k == 1, "each error is returned once")
	}
	nd.Reach("several")
}

func allRules() (l []linter.LintRuleFunc) {
	for _, r := range linter.AllTheRules {
		l = append(l, r.RuleFunction)
	}
	return
}

// sameErrors states that got is want in source order, each error as often.
func sameErrors(got []linter.LintErrorWithMetadata, want []linter.LintErrorWithMetadata) {
	nd.Assert(len(got) == len(want), "as many errors as the rules reported")
	same := func(x linter.LintErrorWithMetadata, l []linter.LintErrorWithMetadata) int {
		n := 0
		for _, y := range l {
			if x.Line == y.Line && x.Column == y.Column && x.Rule == y.Rule {
				n += nd.If(x.Err.Error() == y.Err.Error(), 1, 0)
			}
		}
		return n
	}
	for i, g := range got {
		if i > 0 {
			p := got[i-1]
			nd.Assert(p.Line < g.Line || p.Line == g.Line && p.Column <= g.Column, "errors are in source order")
		}
		nd.Assert(same(g, got) == same(g, want), "the errors are those of the rules")
	}
}

func parse(file, t string) *ast.SchemaDocument {
	d, err := parser.ParseSchema(&ast.Source{Name: file, Input: t})
	if err != nil {
		nd.Assume(false)
	}
	return d
}

// H_L10_texts: Bounds: two of 31 declarations one below the other (quick: the second out of 6), every rule or all rules, symbolic names of one letter.
func H_L10_texts() {
	second := []int{9, 20, 24, 12, 14, 28}
	k := 0
	if nd.Deep() {
		k = nd.Choice("second", len(gen.Menu))
	} else {
		k = second[nd.Choice("second", len(second))]
	}
	t := gen.Text(gen.Menu[nd.Choice("first", len(gen.Menu))], nd.BytesOf("name", 1, "AaNx")) + "\n" + gen.Text(gen.Menu[k], "N")
	rules := allRules()
	if i := nd.Choice("rule", 4); i > 0 {
		rules = []linter.LintRuleFunc{rules[i*2], rules[i*2-1], rules[i*2]}
	}
	var want []linter.LintErrorWithMetadata
	for _, r := range rules {
		want = append(want, r(parse("f.graphql", t))...)
	}
	got := lint.Lint("f.graphql", t, rules)
	nd.Obs("errors", len(got))
	sameErrors(got, want)
	if len(got) > 2 {
		nd.Reach("several")
	}
}

// H_L10_busy: Bounds: 4 parsed documents that hold every kind of declaration, in which none, all or every second element offends against one of 5 rules, and one element is symbolic.
func H_L10_busy() {
	texts := []func() string{func() string { return busyText }, func() string { return flat(busyText) }, func() string { return spread(busyText) }, long}
	t := texts[nd.Choice("text", 4)]()
	name := []string{"type-desc", "field-desc", "args-desc", "enum-caps", "relay-conn-type"}[nd.Choice("rule", 5)]
	every, at := nd.Choice("offending", 3), nd.Choice("symbolic", tier(3, 12))
	var rules []linter.LintRuleFunc
	doc := parse("f.graphql", t)
	l := spots(name, doc)
	for i, s := range l {
		if every > 0 && i%every == 0 {
			s.bad()
		}
	}
	l[at].sym()
	var want []linter.LintErrorWithMetadata
	for _, r := range linter.AllTheRules {
		f := r.RuleFunction
		want = append(want, f(doc)...)
		rules = append(rules, func(*ast.SchemaDocument) linter.LintErrorsWithMetadata { return f(doc) })
	}
	got := lint.Lint("f.graphql", t, rules)
	nd.Obs("errors", len(got))
	sameErrors(got, want)
	if len(got) > 2 {
		nd.Reach("several")
	}
}
