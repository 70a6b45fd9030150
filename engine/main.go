package main

import (
	"bytes"
	"context"
	"encoding/json"
	"flag"
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"os"
	"os/exec"
	"path/filepath"
	"regexp"
	"sort"
	"strings"
	"sync"
	"time"

	"golang.org/x/tools/go/ssa"
)

const modPath = "github.com/CrowdStrike/gql"

// harness is one entry point of a property.
type harness struct {
	Name, Pkg, Dir string
	Bounds         string
	Only           string // "", "thorough", "quick"
}

func findHarnesses(hdir, prop string) ([]harness, error) {
	var out []harness
	fset := token.NewFileSet()
	err := filepath.Walk(hdir, func(p string, fi os.FileInfo, err error) error {
		if err != nil || fi.IsDir() || !strings.HasSuffix(p, ".go") {
			return err
		}
		f, err := parser.ParseFile(fset, p, nil, parser.ParseComments)
		if err != nil {
			return err
		}
		rel, _ := filepath.Rel(hdir, filepath.Dir(p))
		for _, d := range f.Decls {
			fd, ok := d.(*ast.FuncDecl)
			if !ok || fd.Recv != nil || !strings.HasPrefix(fd.Name.Name, "H_"+prop+"_") {
				continue
			}
			h := harness{Name: fd.Name.Name, Pkg: modPath + "/zzverif/" + filepath.ToSlash(rel), Dir: rel}
			doc := fd.Doc.Text()
			if i := strings.Index(doc, "Bounds:"); i >= 0 {
				h.Bounds = strings.Join(strings.Fields(doc[i+7:]), " ")
			}
			if strings.Contains(doc, "Tier: thorough") {
				h.Only = "thorough"
				h.Bounds = strings.Replace(h.Bounds, "Tier: thorough", "", 1)
			}
			out = append(out, h)
		}
		return nil
	})
	sort.Slice(out, func(i, j int) bool { return out[i].Name < out[j].Name })
	return out, err
}

// native builds and runs the replay binary.
type native struct {
	dir, bin string
	deep     bool
}

func buildNative(repo, hdir string, hs []harness, scratch string, deep bool) (*native, error) {
	files, _, err := harnessOverlay(repo, hdir)
	if err != nil {
		return nil, err
	}
	pk := map[string]string{}
	for _, h := range hs {
		if pk[h.Pkg] == "" {
			pk[h.Pkg] = fmt.Sprintf("p%d", len(pk))
		}
	}
	var b bytes.Buffer
	fmt.Fprintf(&b, "package main\n\nimport (\n\t%q\n", modPath+"/zzverif/nd")
	for p, n := range pk {
		fmt.Fprintf(&b, "\t%s %q\n", n, p)
	}
	fmt.Fprintf(&b, ")\n\nfunc main() {\n\tnd.Main(map[string]func(){\n")
	for _, h := range hs {
		fmt.Fprintf(&b, "\t\t%q: %s.%s,\n", h.Name, pk[h.Pkg], h.Name)
	}
	fmt.Fprintf(&b, "\t})\n}\n")
	mainGo := filepath.Join(scratch, "main.go")
	if err := os.WriteFile(mainGo, b.Bytes(), 0600); err != nil {
		return nil, err
	}
	files[filepath.Join(repo, "zzverif", "zzmain", "main.go")] = mainGo
	ov, _ := json.Marshal(map[string]interface{}{"Replace": files})
	ovf := filepath.Join(scratch, "overlay.json")
	if err := os.WriteFile(ovf, ov, 0600); err != nil {
		return nil, err
	}
	n := &native{dir: scratch, bin: filepath.Join(scratch, "replay"), deep: deep}
	cmd := exec.Command("go", "build", "-mod=readonly", "-overlay", ovf, "-o", n.bin, "./zzverif/zzmain")
	cmd.Dir = repo
	out, err := cmd.CombinedOutput()
	if err != nil {
		return nil, fmt.Errorf("native build: %v\n%s", err, out)
	}
	return n, nil
}

type nativeResult struct {
	Status string   `json:"status"`
	Msg    string   `json:"msg"`
	Obs    []string `json:"obs"`
	Reach  []string `json:"reach"`
}

// run replays one set of inputs.
func (n *native) run(h string, inputs []interface{}, limit time.Duration) nativeResult {
	d, err := os.MkdirTemp(n.dir, "run")
	if err != nil {
		return nativeResult{Status: "error", Msg: err.Error()}
	}
	defer os.RemoveAll(d)
	wd := filepath.Join(d, "wd")
	_ = os.Mkdir(wd, 0700)
	in, _ := json.Marshal(map[string]interface{}{"inputs": inputs, "deep": n.deep})
	_ = os.WriteFile(filepath.Join(d, "in.json"), in, 0600)
	ctx, cancel := context.WithTimeout(context.Background(), limit)
	defer cancel()
	cmd := exec.CommandContext(ctx, n.bin)
	cmd.Dir = wd
	cmd.Env = append(os.Environ(), "ZZ_IN="+filepath.Join(d, "in.json"), "ZZ_OUT="+filepath.Join(d, "out.json"), "ZZ_H="+h, "ZZ_DIR="+d, "GOMEMLIMIT=2GiB")
	var er bytes.Buffer
	cmd.Stderr = &er
	err = cmd.Run()
	if ctx.Err() != nil {
		return nativeResult{Status: "hang", Msg: "no result within " + limit.String()}
	}
	b, rerr := os.ReadFile(filepath.Join(d, "out.json"))
	if rerr != nil {
		if x, ok := err.(*exec.ExitError); ok {
			msg := strings.SplitN(er.String(), "\n", 2)[0]
			if x.ExitCode() == 2 {
				return nativeResult{Status: "panic", Msg: msg}
			}
			return nativeResult{Status: "exit", Msg: fmt.Sprintf("exit status %d %s", x.ExitCode(), msg)}
		}
		return nativeResult{Status: "exit", Msg: "exit status 0 before the harness ended"}
	}
	var r nativeResult
	if err := json.Unmarshal(b, &r); err != nil {
		return nativeResult{Status: "error", Msg: err.Error()}
	}
	return r
}

// confirms tells whether native result r shows the candidate's violation.
func (c *Candidate) confirms(r nativeResult) bool {
	switch r.Status {
	case "assert", "panic", "exit", "hang":
		return true
	}
	return false
}

type known struct {
	Property string `json:"property"`
	ID       string `json:"id"`
	Status   string `json:"status"`
	What     string `json:"what"`
}

func loadKnown(path, prop string) (map[string]known, error) {
	out := map[string]known{}
	b, err := os.ReadFile(path)
	if os.IsNotExist(err) {
		return out, nil
	}
	if err != nil {
		return nil, err
	}
	for _, l := range strings.Split(string(b), "\n") {
		if !strings.HasPrefix(strings.TrimSpace(l), "{") {
			continue
		}
		var k known
		if err := json.Unmarshal([]byte(l), &k); err != nil {
			return nil, err
		}
		if k.Property == prop && k.Status == "known" {
			out[k.ID] = k
		}
	}
	return out, nil
}

// labels lists the constant labels of nd.Reach calls in f and its closures.
func labels(f *ssa.Function, out map[string]bool) {
	for _, b := range f.Blocks {
		for _, in := range b.Instrs {
			c, ok := in.(*ssa.Call)
			if !ok || c.Call.StaticCallee() == nil || c.Call.StaticCallee().Name() != "Reach" {
				continue
			}
			if k, ok := c.Call.Args[0].(*ssa.Const); ok && k.Value != nil {
				out[strings.Trim(k.Value.ExactString(), "\"")] = true
			}
		}
	}
	for _, a := range f.AnonFuncs {
		labels(a, out)
	}
}

type hReport struct {
	Name        string         `json:"harness"`
	Bounds      string         `json:"bounds"`
	Paths       int            `json:"paths"`
	Infeasible  int            `json:"paths_infeasible"`
	Assumed     int            `json:"paths_outside_assumptions"`
	Decisions   int64          `json:"decisions"`
	Merges      int64          `json:"branches_merged"`
	Instr       int64          `json:"instructions"`
	Asserts     map[string]int `json:"assertions"`
	Reach       map[string]int `json:"reach"`
	Unreached   []string       `json:"unreached,omitempty"`
	Unsupported map[string]int `json:"unsupported,omitempty"`
	Reduced     []string       `json:"reduced_bound,omitempty"`
	Imprecise   map[string]int `json:"imprecise,omitempty"`
	Queries     map[string]int `json:"queries"`
	SolverS     float64        `json:"solver_s"`
	WallS       float64        `json:"wall_s"`
	Complete    bool           `json:"complete"`
	Validated   int            `json:"witnesses_validated"`
	Mismatch    []string       `json:"witness_mismatches,omitempty"`
	Unconfirmed []string       `json:"unconfirmed_candidates,omitempty"`
	funcs       map[string]bool
}

func main() {
	repo := flag.String("repo", "/repo", "")
	verif := flag.String("verif", "/verif", "")
	prop := flag.String("prop", "", "")
	tier := flag.String("tier", "quick", "")
	only := flag.String("only", "", "regexp over harness names (development)")
	replay := flag.String("replay", "", "replay a recorded violation natively")
	verbose := flag.Bool("v", false, "")
	budget := flag.Int("budget", 0, "seconds")
	workers := flag.Int("workers", 8, "")
	deadBranch := flag.Bool("allwits", false, "validate many witnesses")
	flag.Parse()
	if *replay != "" {
		os.Exit(doReplay(*repo, *verif, *replay))
	}
	if *prop == "" {
		fmt.Fprintln(os.Stderr, "usage: engine -prop ID")
		os.Exit(2)
	}
	maxw := 6
	if *deadBranch {
		maxw = 400
	}
	os.Exit(runProp(*repo, *verif, *prop, *tier, *only, *verbose, *budget, *workers, maxw))
}

func doReplay(repo, verif, file string) int {
	b, err := os.ReadFile(file)
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	var r struct {
		Property, Harness string
		Deep              bool
		Inputs            []interface{}
	}
	if err := json.Unmarshal(b, &r); err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	hs, err := findHarnesses(filepath.Join(verif, "harness"), r.Property)
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	scratch, err := os.MkdirTemp("", "zzreplay")
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	defer os.RemoveAll(scratch)
	n, err := buildNative(repo, filepath.Join(verif, "harness"), hs, scratch, r.Deep)
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	for i := 0; i < 200; i++ {
		x := n.run(r.Harness, r.Inputs, 20*time.Second)
		if x.Status != "ok" || i == 199 {
			j, _ := json.MarshalIndent(x, "", " ")
			fmt.Println(string(j))
			if x.Status == "ok" {
				return 0
			}
			return 1
		}
	}
	return 0
}

func runProp(repo, verif, prop, tier, only string, verbose bool, budget, workers, maxWit int) int {
	t0 := time.Now()
	fail := func(err error) int {
		fmt.Fprintf(os.Stderr, "check %s: %v\n", prop, err)
		return 2
	}
	hdir := filepath.Join(verif, "harness")
	hs, err := findHarnesses(hdir, prop)
	if err != nil {
		return fail(err)
	}
	deep := tier == "thorough"
	var sel []harness
	for _, h := range hs {
		if only != "" && !regexp.MustCompile(only).MatchString(h.Name) {
			continue
		}
		if h.Only == "thorough" && !deep {
			continue
		}
		sel = append(sel, h)
	}
	if len(sel) == 0 {
		return fail(fmt.Errorf("no harness"))
	}
	if budget == 0 {
		budget = 400
		if deep {
			budget = 780
		}
	}
	deadline := t0.Add(time.Duration(budget) * time.Second)
	kn, err := loadKnown(filepath.Join(verif, "known_findings.jsonl"), prop)
	if err != nil {
		return fail(err)
	}
	scratch, err := os.MkdirTemp("", "zzverif")
	if err != nil {
		return fail(err)
	}
	defer os.RemoveAll(scratch)
	// native build in parallel with loading
	var nat *native
	var natErr error
	var wg sync.WaitGroup
	wg.Add(1)
	go func() {
		defer wg.Done()
		nat, natErr = buildNative(repo, hdir, hs, scratch, deep)
	}()
	pats := map[string]bool{}
	for _, h := range sel {
		pats["./zzverif/"+filepath.ToSlash(h.Dir)] = true
	}
	prog, err := loadProgram(repo, hdir, sortedKeys(pats))
	if err != nil {
		return fail(err)
	}
	loadS := time.Since(t0).Seconds()
	wg.Wait()
	if natErr != nil {
		return fail(natErr)
	}
	if verbose {
		fmt.Fprintf(os.Stderr, "loaded in %.1fs\n", loadS)
	}
	repDir := filepath.Join(verif, "evidence", "replays")
	_ = os.MkdirAll(repDir, 0755)
	var reports []hReport
	violations := 0
	knownSeen := map[string]bool{}
	var samples []interface{}
	funcs := map[string]bool{}
	for i, h := range sel {
		fn := prog.fn(h.Pkg, h.Name)
		ex := newExplorer(prog, workers)
		ex.maxWit = maxWit
		ex.deep = deep
		ex.knownIDs = map[string]bool{}
		for id := range kn {
			ex.knownIDs[id] = true
		}
		rem := time.Until(deadline)
		share := rem / time.Duration(len(sel)-i)
		if share*3 < rem {
			share = share * 2 // leave slack: most harnesses finish early
		}
		ex.deadline = time.Now().Add(share)
		name := h.Name
		ex.confirm = func(c Candidate, tries int) (nr nativeResult, ok bool) {
			if c.Kind == "steps" {
				tries = 2
			}
			for k := 0; k < tries && !ok; k++ {
				nr = nat.run(name, c.Inputs, 20*time.Second)
				ok = c.confirms(nr)
			}
			return
		}
		ht := time.Now()
		ex.run(fn)
		r := hReport{Name: h.Name, Bounds: h.Bounds, Paths: ex.Stats.Paths, Infeasible: ex.Stats.Infeasible, Assumed: ex.Stats.Assumed,
			Decisions: ex.Stats.Decisions, Merges: ex.Stats.Merges, Instr: ex.Stats.Instr,
			Asserts: map[string]int{"decided_by_simplification": ex.Stats.AssertTrivial, "paths_whose_simplifications_the_solver_confirmed": ex.Stats.Cross, "unsat": ex.Stats.AssertUnsat, "sat": ex.Stats.AssertSat, "unknown": ex.Stats.AssertUnk},
			Reach:   ex.Stats.Reach, Unsupported: ex.Stats.UnsupMsg, Imprecise: ex.Stats.Imprecise,
			Queries: map[string]int{"total": ex.Queries, "sat": ex.SatN, "unsat": ex.UnsatN, "unknown": ex.UnknownN, "errors": ex.SolverErrors, "sat_by_model_repair": ex.Stats.Repaired},
			SolverS: ex.SolverTime.Seconds(), WallS: time.Since(ht).Seconds(), funcs: ex.Stats.Funcs}
		want := map[string]bool{}
		labels(fn, want)
		for _, l := range sortedKeys(want) {
			if ex.Stats.Reach[l] == 0 {
				r.Unreached = append(r.Unreached, l)
			}
		}
		if ex.TimedOut {
			r.Reduced = append(r.Reduced, "time budget ended before every path was explored")
		}
		if ex.Stats.Unsupported > 0 {
			r.Reduced = append(r.Reduced, fmt.Sprintf("%d paths stopped at an operation that cannot be encoded", ex.Stats.Unsupported))
		}
		if ex.Stats.AssertUnk+ex.Stats.BranchUnk+ex.SolverErrors > 0 {
			r.Reduced = append(r.Reduced, fmt.Sprintf("%d assertion and %d branch queries undecided, %d solver errors", ex.Stats.AssertUnk, ex.Stats.BranchUnk, ex.SolverErrors))
		}
		if ex.Stats.StepLimit > 0 {
			r.Reduced = append(r.Reduced, fmt.Sprintf("%d paths reached the step limit", ex.Stats.StepLimit))
		}
		r.Complete = len(r.Reduced) == 0 && !ex.stop
		// candidates: replay before reporting
		reported := 0
		for _, c := range ex.cands {
			ok, nr := c.Confirmed, c.Native
			if !ok {
				r.Unconfirmed = append(r.Unconfirmed, fmt.Sprintf("%s (native: %s %s) inputs %s", c.Msg, nr.Status, nr.Msg, brief(c.Inputs)))
				continue
			}
			if len(c.Known) > 0 {
				for _, id := range c.Known {
					knownSeen[id] = true
				}
				continue
			}
			violations++
			reported++
			if reported > 4 {
				continue
			}
			path := filepath.Join(repDir, fmt.Sprintf("%s-%d.json", prop, violations))
			b, _ := json.MarshalIndent(map[string]interface{}{"property": prop, "harness": h.Name, "deep": deep, "claim": c.Msg, "native": nr, "inputs": c.Inputs, "stack": c.Stack,
				"how": "engine -replay <this file> runs the real code on these inputs"}, "", " ")
			_ = os.WriteFile(path, b, 0644)
			fmt.Printf("VIOLATION property=%s replay=%s\n", prop, path)
			fmt.Printf("  %s: %s (replayed on the real code: %s %s)\n  inputs: %s\n", h.Name, c.Msg, nr.Status, nr.Msg, brief(c.Inputs))
		}
		for _, w := range ex.wits {
			nr := nat.run(h.Name, w.Inputs, 20*time.Second)
			switch {
			case nr.Status == "ok" && equalStr(nr.Obs, w.Obs) && equalStr(nr.Reach, w.Reach):
				r.Validated++
			default:
				r.Mismatch = append(r.Mismatch, fmt.Sprintf("native %s %s obs %v reach %v, predicted %v %v, inputs %s", nr.Status, nr.Msg, nr.Obs, nr.Reach, w.Obs, w.Reach, brief(w.Inputs)))
			}
			if len(samples) < 12 {
				samples = append(samples, map[string]interface{}{"harness": h.Name, "inputs": brief(w.Inputs), "reach": w.Reach, "observed": nr.Obs})
			}
		}
		for f := range ex.Stats.Funcs {
			funcs[f] = true
		}
		reports = append(reports, r)
		if verbose {
			j, _ := json.MarshalIndent(r, "", " ")
			fmt.Fprintln(os.Stderr, string(j))
		} else {
			for _, u := range append(append([]string{}, r.Unconfirmed...), r.Mismatch...) {
				fmt.Printf("  note: %s: model and real code differ: %.300s\n", h.Name, u)
			}
			fmt.Printf("%s: %d paths, %d queries, %.1fs%s\n", h.Name, r.Paths, r.Queries["total"], r.WallS, map[bool]string{true: "", false: " (not exhaustive, see evidence)"}[r.Complete])
		}
	}
	for _, id := range sortedKeys(knownSeen) {
		fmt.Printf("KNOWN-FINDING: property=%s %s %s\n", prop, id, kn[id].What)
	}
	writeEvidence(verif, prop, tier, reports, funcs, samples, violations, knownSeen, t0)
	if violations > 0 {
		return 1
	}
	return 0
}

func equalStr(a, b []string) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if a[i] != b[i] {
			return false
		}
	}
	return true
}

func brief(in []interface{}) string {
	var b strings.Builder
	for i, x := range in {
		m := x.(map[string]interface{})
		if i > 0 {
			b.WriteString(" ")
		}
		if s, ok := m["show"]; ok {
			fmt.Fprintf(&b, "%v=%v", m["n"], s)
		} else {
			fmt.Fprintf(&b, "%v=%v", m["n"], m["i"])
		}
	}
	return b.String()
}

func writeEvidence(verif, prop, tier string, reps []hReport, funcs map[string]bool, samples []interface{}, violations int, knownSeen map[string]bool, t0 time.Time) {
	seed := 1
	fmt.Sscan(os.Getenv("VERIF_SEED"), &seed)
	states, validated, unsupported := 0, 0, 0
	var trans int64
	q := map[string]int{}
	solver := 0.0
	complete := true
	for _, r := range reps {
		states += r.Paths
		trans += r.Instr
		validated += r.Validated
		solver += r.SolverS
		complete = complete && r.Complete
		for _, n := range r.Unsupported {
			unsupported += n
		}
		for k, v := range r.Queries {
			q[k] += v
		}
	}
	var repoFns, libFns []string
	for f := range funcs {
		if strings.Contains(f, modPath) && !strings.Contains(f, "/zzverif/") {
			repoFns = append(repoFns, strings.ReplaceAll(f, modPath+"/", ""))
		} else if strings.Contains(f, "gqlparser") || strings.Contains(f, "cobra") || strings.Contains(f, "pflag") {
			libFns = append(libFns, f)
		}
	}
	sort.Strings(repoFns)
	sort.Strings(libFns)
	ev := map[string]interface{}{
		"property": prop, "tier": tier, "seed": seed, "level": "model_checking", "wall_s": time.Since(t0).Seconds(), "violations": violations,
		"coverage": map[string]interface{}{
			"states":                        states,
			"transitions":                   trans,
			"traces_validated_against_impl": validated,
			"samples":                       samples,
			"exhaustive":                    complete,
			"unit":                          "a state is one completed symbolic path (a set of inputs described by its path condition); a transition is one SSA instruction executed symbolically; a validated trace is a path whose solver model was run on the natively compiled code with the predicted observations",
			"queries":                       q,
			"solver_s":                      solver,
			"solver":                        "z3 5.3.2 (z3-new -in, QF_BV)",
			"functions_encoded_repo":        repoFns,
			"functions_encoded_libraries":   libFns,
			"harnesses":                     reps,
			"known_findings_seen":           sortedKeys(knownSeen),
		},
		"assumptions": []string{
			"bounds: as listed per harness; inputs outside them (longer names, more elements, deeper nesting) are not covered",
			"go/ssa's translation of the source and this executor's semantics of it; each validated trace checks both against the compiled program",
			"where a harness asks for every map order: every order of maps of up to 4 entries (thorough: 5), of larger ones the given order, its reverse, and every order that moves one entry to the front or to the end",
			"modelled instead of encoded: package fmt, parts of strings/sort/strconv/sync, the file system (filepath.Glob, os.Open, os.ReadFile, io.ReadAll on files), os.Exit",
			"undecided queries, unsupported operations and the time budget are listed under reduced_bound; none means every path within the bounds was decided",
		},
	}
	b, _ := json.MarshalIndent(ev, "", " ")
	_ = os.MkdirAll(filepath.Join(verif, "evidence"), 0755)
	_ = os.WriteFile(filepath.Join(verif, "evidence", prop+".json"), append(b, '\n'), 0644)
}
