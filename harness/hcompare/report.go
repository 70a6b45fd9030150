package hcompare

import (
	"strings"

	"github.com/vektah/gqlparser/v2/ast"

	"github.com/CrowdStrike/gql/pkg/compare"
	"github.com/CrowdStrike/gql/zzverif/nd"
)

// ---- C16: changes of all severities, made by comparing documents whose elements lie anywhere.

type made struct {
	crit compare.Criticality
	pos  *ast.Position
}

// somewhere is a position in a file, or none.
func somewhere(label string, files []*ast.Source, nils bool) *ast.Position {
	if nils && nd.Choice(label+".nil", 3) == 0 {
		return nil
	}
	p := &ast.Position{Line: nd.Int(label+".line", 1, 12), Column: 1}
	p.Src = files[nd.Choice(label+".file", len(files))]
	return p
}

func twoFiles() []*ast.Source {
	return []*ast.Source{{Name: "b.graphql"}, {Name: []string{"ab.graphql", "b.graphqls"}[nd.Choice("file", 2)]}}
}

// makeChanges adds to the documents what yields n changes of the severity, one each, with the positions.
func (s *scn) makeChanges(c compare.Criticality, pos []*ast.Position) {
	names := []string{"ab", "cd", "ab", "ef"}
	i := 0
	name := func() string { i++; return names[i-1] }
	switch c {
	case compare.Breaking: // removed types; equal names make equal messages
		for _, p := range pos {
			s.o.def(false, ast.Scalar, "O"+name()).Position = p
		}
	case compare.NonBreaking: // added types
		for _, p := range pos {
			s.n.def(false, ast.Scalar, "N"+name()).Position = p
		}
	default: // added enum values
		s.o.def(false, ast.Enum, "E")
		d := s.n.def(false, ast.Enum, "E")
		for _, p := range pos {
			s.n.value(d, name()).Position = p
		}
	}
}

// H_C16_group: Bounds: up to 2 changes (thorough 3) of each severity at once, positions known or not, messages equal or not.
func H_C16_group() {
	s := newScn()
	files := twoFiles()
	m := tier(2, 3)
	total := 0
	for _, c := range []compare.Criticality{compare.Breaking, compare.Dangerous, compare.NonBreaking} {
		n := nd.Choice("n", m+1)
		var pos []*ast.Position
		for i := 0; i < n; i++ {
			pos = append(pos, somewhere("pos", files, i == 0))
		}
		s.makeChanges(c, pos)
		total += n
	}
	ch := compare.FindChangesInSchemas(s.o.doc, s.n.doc)
	nd.Assume(len(ch) == total)
	if total == 3*m {
		nd.Reach("full")
	}
	before := append([]*compare.Change{}, ch...)
	g := compare.GroupChanges(ch)
	n := 0
	for k, l := range g {
		n += len(l)
		for _, c := range l {
			nd.Assert(c.GetChangeCriticalityLevel() == k, "a change is in the group of its severity")
		}
	}
	nd.Assert(n == total, "every change is in one group")
	for _, c := range before {
		k := 0
		for _, x := range g[c.GetChangeCriticalityLevel()] {
			if x == c {
				k++
			}
		}
		nd.Assert(k == 1, "a change is in its group once")
	}
	nd.Obs("total", total)
}

func perms(n int) [][]int {
	f := 1
	for i := 2; i <= n; i++ {
		f *= i
	}
	var out [][]int
	for k := 0; k < f; k++ {
		out = append(out, order{k}.of(n))
	}
	return out
}

func posText(p *ast.Position) string { return p.Src.Name + ":" + nd.Itoa(p.Line) }

// report states what one report function prints.
func report(c compare.Criticality, n int, nils bool) {
	s := newScn()
	files := twoFiles()
	pos := make([]*ast.Position, n)
	unknown := 0
	for i := range pos {
		pos[i] = somewhere("pos", files, nils)
		if pos[i] == nil {
			unknown++
		}
	}
	s.makeChanges(c, pos)
	ch := compare.FindChangesInSchemas(s.o.doc, s.n.doc)
	nd.Assume(len(ch) == n)
	list := append([]*compare.Change{}, ch...)
	loc := nd.Choice("loc", 2) == 1
	f := map[compare.Criticality]func([]*compare.Change, bool) int{compare.Breaking: compare.ReportBreakingChanges,
		compare.Dangerous: compare.ReportDangerousChanges, compare.NonBreaking: compare.ReportNonBreakingChanges}[c]
	got := 0
	out := nd.Capture(func() { got = f(ch, loc) })
	nd.Assert(got == n, "the number of changes is returned")
	nd.Obs("out", out)
	lines := strings.Split(out, "\n")
	nd.Assert(len(lines) == n+1, "one line per change")
	nd.Assert(lines[n] == "", "every line ends")
	lines = lines[:n]
	tails := make([]string, n)
	for i, x := range list {
		tails[i] = "  " + x.GetMessage()
		if loc && x.GetPosition() != nil {
			tails[i] = "  " + posText(x.GetPosition()) + " " + x.GetMessage()
		}
	}
	any := false
	for _, p := range perms(n) {
		ok := true
		var prev *ast.Position
		for i, j := range p {
			ok = nd.And(ok, strings.HasSuffix(lines[i], tails[j]))
			if q := list[j].GetPosition(); q != nil {
				if prev != nil {
					ok = nd.And(ok, nd.Or(prev.Src.Name < q.Src.Name, nd.And(prev.Src.Name == q.Src.Name, prev.Line <= q.Line)))
				}
				prev = q
			}
		}
		any = nd.Or(any, ok)
	}
	nd.Assert(any, "every change is printed once, by file and line, with its location")
	nd.Reach("printed")
}

func anyCrit() compare.Criticality {
	return []compare.Criticality{compare.Breaking, compare.Dangerous, compare.NonBreaking}[nd.Choice("severity", 3)]
}

// H_C16_report: Bounds: 1..3 changes of one severity with positions in two files with names in 2 relations, lines 1..12, messages equal or not, locations
// requested or not.
func H_C16_report() { report(anyCrit(), 1+nd.Choice("n", 3), false) }

// H_C16_unknown: Bounds: 1..2 changes (thorough 3) of one severity, each with or without a position.
func H_C16_unknown() { report(anyCrit(), 1+nd.Choice("n", tier(2, 3)), true) }

// H_C16_none: Bounds: an empty list of changes.
func H_C16_none() {
	s := newScn()
	_ = s
	loc := nd.Choice("loc", 2) == 1
	n := 0
	out := nd.Capture(func() {
		g := compare.GroupChanges(nil)
		n = compare.ReportBreakingChanges(g[compare.Breaking], loc) + compare.ReportDangerousChanges(nil, loc) + compare.ReportNonBreakingChanges([]*compare.Change{}, loc)
	})
	nd.Assert(n == 0, "no change is counted")
	nd.Assert(!strings.Contains(out, "@"), "nothing is reported")
	nd.Reach("none")
}

// H_C16_names: Bounds: 2 changes in two files with names of 1..3 arbitrary bytes (thorough 4), all severities.
func H_C16_names() {
	c := anyCrit()
	s := newScn()
	m := tier(3, 4)
	files := []*ast.Source{{Name: nd.Bytes("file", 1+nd.Choice("len", m))}, {Name: nd.Bytes("file", 1+nd.Choice("len", m))}}
	same := nd.Choice("samefile", 2)
	s.makeChanges(c, []*ast.Position{{Line: nd.Int("line", 1, 12), Src: files[0]}, {Line: nd.Int("line", 1, 12), Src: files[1-same]}})
	ch := compare.FindChangesInSchemas(s.o.doc, s.n.doc)
	nd.Assume(len(ch) == 2)
	list := append([]*compare.Change{}, ch...)
	f := map[compare.Criticality]func([]*compare.Change, bool) int{compare.Breaking: compare.ReportBreakingChanges,
		compare.Dangerous: compare.ReportDangerousChanges, compare.NonBreaking: compare.ReportNonBreakingChanges}[c]
	got := 0
	out := nd.Capture(func() { got = f(ch, false) })
	nd.Assert(got == 2, "the number of changes is returned")
	lines := strings.Split(out, "\n")
	nd.Assert(len(lines) == 3, "one line per change")
	any := false
	for _, p := range perms(2) {
		a, b := list[p[0]].GetPosition(), list[p[1]].GetPosition()
		ok := nd.Or(a.Src.Name < b.Src.Name, nd.And(a.Src.Name == b.Src.Name, a.Line <= b.Line))
		any = nd.Or(any, nd.And(ok, nd.And(strings.HasSuffix(lines[0], "  "+list[p[0]].GetMessage()), strings.HasSuffix(lines[1], "  "+list[p[1]].GetMessage()))))
	}
	nd.Assert(any, "the changes are printed by file and line")
	nd.Reach("printed")
}

// H_C16_equal: Bounds: up to 4 removed applications of a repeated directive, which make changes that are equal in everything, with a removed type and an
// added field beside them.
func H_C16_equal() {
	n := 1 + nd.Choice("n", 4)
	ext := []string{"", "extend "}[nd.Choice("extension", 2)]
	host := nd.Choice("host", 2)
	apps := ""
	for i := 0; i < n; i++ {
		apps += " @d(a: " + nd.BytesOf("value", 1, "123") + ")"
	}
	at := func(d, more string) string {
		if host == 0 {
			return ext + "type T" + d + " { f: Int" + more + "}"
		}
		return ext + "interface T { f: Int" + d + more + "}"
	}
	o, _ := parseText("old.graphql", at(apps, "")+" scalar X")
	nw, _ := parseText("new.graphql", at(" @d(a: 7) @d(a: 8)", " g: Int"))
	ch := compare.FindChangesInSchemas(o, nw)
	nd.Assert(len(ch) == n+2, "every change is found")
	g := compare.GroupChanges(ch)
	nd.Assert(len(g[compare.Dangerous]) == n && len(g[compare.Breaking]) == 1 && len(g[compare.NonBreaking]) == 1, "every change is in its group")
	loc := nd.Choice("loc", 2) == 1
	got := 0
	out := nd.Capture(func() { got = compare.ReportDangerousChanges(g[compare.Dangerous], loc) })
	nd.Assert(got == n, "the number of changes is returned")
	nd.Assert(strings.Count(out, "@d") == n && strings.Count(out, "\n") == n, "every change is printed once")
	nd.Reach("equal")
}

// H_C16_many: Bounds: 14 changes of one severity (thorough 25), at lines in one of 3 orders except for one at a symbolic line and in either file, locations requested or not.
func H_C16_many() {
	n := tier(14, 25)
	ext := []string{"", "extend "}[nd.Choice("extension", 2)]
	c := anyCrit()
	sym := nd.Choice("at", 3) * (n - 1) / 2
	how := nd.Choice("order", 3)
	old, nw := newSide("b.graphql"), newSide("b.graphql")
	other := &ast.Source{Name: []string{"a.graphql", "c.graphql"}[nd.Choice("file", 2)]}
	elsewhere := nd.Choice("elsewhere", 2) == 1
	od, dd := old.def(ext != "", ast.Enum, "E"), nw.def(ext != "", ast.Enum, "E")
	var at []*ast.Position
	for i := 0; i < n; i++ {
		name := "m" + nd.Itoa(10+i)
		p := &ast.Position{Line: 100 + []int{i, n - i, i * 11 % n}[how], Src: nw.src}
		if i == sym {
			p.Line = nd.Int("line", 98, 101+n)
			if elsewhere {
				p.Src = other
			}
		}
		at = append(at, p)
		switch c {
		case compare.Breaking:
			old.value(od, name).Position = p
		case compare.Dangerous:
			nw.value(dd, name).Position = p
		default:
			v := old.value(od, name)
			v.Description = "x"
			nw.value(dd, name).Position = p
		}
	}
	ch := compare.FindChangesInSchemas(old.doc, nw.doc)
	nd.Assume(len(ch) == n)
	loc := nd.Choice("loc", 2) == 1
	got := 0
	f := map[compare.Criticality]func([]*compare.Change, bool) int{compare.Breaking: compare.ReportBreakingChanges,
		compare.Dangerous: compare.ReportDangerousChanges, compare.NonBreaking: compare.ReportNonBreakingChanges}[c]
	g := compare.GroupChanges(ch)
	nd.Assert(len(g[c]) == n, "every change is in its group")
	out := nd.Capture(func() { got = f(g[c], loc) })
	nd.Assert(got == n, "the number of changes is returned")
	lines := strings.Split(out, "\n")
	nd.Assert(len(lines) == n+1, "one line per change")
	var prev *ast.Position
	seen := make([]bool, n)
	for _, l := range lines[:n] {
		k := -1
		for i := 0; i < n; i++ {
			if strings.Contains(l, "'m"+nd.Itoa(10+i)+"'") {
				k = i
			}
		}
		nd.Assert(k >= 0 && !seen[k], "every change is printed once")
		seen[k] = true
		if loc {
			nd.Assert(strings.Contains(l, "  "+posText(at[k])+" "), "with its location")
		}
		if prev != nil {
			nd.Assert(nd.Or(prev.Src.Name < at[k].Src.Name, nd.And(prev.Src.Name == at[k].Src.Name, prev.Line <= at[k].Line)), "by file and line")
		}
		prev = at[k]
	}
	nd.Reach("printed")
}
