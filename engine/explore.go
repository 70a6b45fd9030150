package main

import (
	"fmt"
	"os"
	"sort"
	"sync"
	"time"

	"golang.org/x/tools/go/ssa"
)

// Explorer runs one harness to exhaustion (or its deadline) over a pool of machines.
type Explorer struct {
	prog      *Program
	solver    []string
	timeoutMS int
	stepLimit int64
	workers   int
	deadline  time.Time
	maxWit    int
	maxPaths  int
	knownIDs  map[string]bool
	deep      bool

	mu        sync.Mutex
	cond      *sync.Cond
	queue     []workItem
	busy      int
	stop      bool
	TimedOut  bool
	cands     []Candidate
	candKey   map[string]int
	candOK    map[string]int
	confirm   func(c Candidate, tries int) (nativeResult, bool)
	wits      []Witness
	nextWit   int
	pathsSeen int
	crossLeft int

	machines                                      []*Machine
	Stats                                         *Stats
	Queries, SatN, UnsatN, UnknownN, SolverErrors int
	SolverTime                                    time.Duration
}

type timeoutSig struct{}

func newExplorer(p *Program, workers int) *Explorer {
	e := &Explorer{prog: p, solver: []string{"z3-new", "-in"}, timeoutMS: 20000, stepLimit: 3000000, workers: workers, maxWit: 6, crossLeft: 1500, candKey: map[string]int{}, candOK: map[string]int{}}
	e.cond = sync.NewCond(&e.mu)
	return e
}

func (e *Explorer) newMachine(st *Stats) *Machine {
	m := &Machine{prog: e.prog, c: newCtx(), s: newSolver(e.solver, e.timeoutMS), ex: e, st: st,
		fninfo: map[*ssa.Function]*fnInfo{}, methods: map[methKey]*fnInfo{}, pdoms: map[*fnInfo][]int{},
		globals: map[*ssa.Global]Ptr{}, inited: map[*ssa.Package]bool{}, native: map[string]Value{}}
	return m
}

func (e *Explorer) push(w workItem) {
	e.mu.Lock()
	e.queue = append(e.queue, w)
	e.mu.Unlock()
	e.cond.Signal()
}

func (e *Explorer) checkDeadline() {
	if time.Now().After(e.deadline) {
		panic(pathEnd{"timeout", ""})
	}
}

// addCandidate replays a counterexample on the real code and keeps the result.
func (e *Explorer) addCandidate(c Candidate) {
	k := c.Kind + "|" + c.Msg + "|" + fmt.Sprint(c.Known)
	e.mu.Lock()
	max := 24
	if c.Kind == "steps" {
		max = 3
	}
	if e.candKey[k] >= max || e.candOK[k] >= 4 || e.stop {
		e.mu.Unlock()
		return
	}
	e.candKey[k]++
	tries := 60
	if e.candKey[k] > 4 {
		tries = 12
	}
	e.mu.Unlock()
	c.Native, c.Confirmed = e.confirm(c, tries)
	e.mu.Lock()
	defer e.mu.Unlock()
	e.cands = append(e.cands, c)
	if !c.Confirmed {
		return
	}
	e.candOK[k]++
	n := 0
	for _, x := range e.cands {
		if x.Confirmed && len(x.Known) == 0 {
			n++
		}
	}
	if n >= 6 {
		e.stop = true
		e.cond.Broadcast()
	}
}

// wantWitness spreads the recorded witnesses over the run (exponentially spaced).
func (e *Explorer) wantWitness() bool {
	e.mu.Lock()
	defer e.mu.Unlock()
	e.pathsSeen++
	if len(e.wits) >= e.maxWit || e.pathsSeen < e.nextWit {
		return false
	}
	e.nextWit = e.pathsSeen + 1 + e.pathsSeen*2/3
	return true
}

func (e *Explorer) takeCross() bool {
	e.mu.Lock()
	defer e.mu.Unlock()
	e.crossLeft--
	return e.crossLeft >= 0
}

func (e *Explorer) addWitness(w Witness) {
	e.mu.Lock()
	e.wits = append(e.wits, w)
	e.mu.Unlock()
}

func (e *Explorer) run(fn *ssa.Function) {
	e.queue = []workItem{{}}
	e.Stats = newStats()
	var wg sync.WaitGroup
	sts := make([]*Stats, e.workers)
	for i := 0; i < e.workers; i++ {
		wg.Add(1)
		sts[i] = newStats()
		go func(i int) {
			defer wg.Done()
			e.worker(fn, sts[i])
		}(i)
	}
	wg.Wait()
	for _, s := range sts {
		e.Stats.add(s)
	}
}

func (e *Explorer) worker(fn *ssa.Function, st *Stats) {
	var m *Machine
	retire := func() {
		if m == nil {
			return
		}
		m.s.close()
		e.mu.Lock()
		e.Queries += m.s.Queries
		e.SatN += m.s.SatN
		e.UnsatN += m.s.UnsatN
		e.UnknownN += m.s.UnknownN
		e.SolverErrors += m.s.Errors
		e.SolverTime += m.s.Time
		e.mu.Unlock()
		m = nil
	}
	defer retire()
	defer func() {
		if r := recover(); r != nil {
			fmt.Fprintf(os.Stderr, "engine: internal error in %s: %v\nstack %v\n", fn, r, m.stackNames())
			panic(r)
		}
	}()
	for {
		e.mu.Lock()
		for len(e.queue) == 0 && e.busy > 0 && !e.stop {
			e.cond.Wait()
		}
		if e.stop || len(e.queue) == 0 {
			e.mu.Unlock()
			e.cond.Broadcast()
			return
		}
		if time.Now().After(e.deadline) {
			e.TimedOut = true
			e.stop = true
			e.mu.Unlock()
			e.cond.Broadcast()
			return
		}
		it := e.queue[len(e.queue)-1]
		e.queue = e.queue[:len(e.queue)-1]
		e.busy++
		e.mu.Unlock()
		if m == nil {
			m = e.newMachine(st)
		}
		m.runPath(fn, it)
		if m.c.next > 1200000 {
			retire()
		}
		e.mu.Lock()
		e.busy--
		e.mu.Unlock()
		e.cond.Broadcast()
	}
}

func (s *Stats) add(o *Stats) {
	s.Paths += o.Paths
	s.Infeasible += o.Infeasible
	s.Assumed += o.Assumed
	s.Unsupported += o.Unsupported
	s.StepLimit += o.StepLimit
	s.Instr += o.Instr
	s.Decisions += o.Decisions
	s.Forks += o.Forks
	s.Merges += o.Merges
	s.MergeFail += o.MergeFail
	s.AssertTrivial += o.AssertTrivial
	s.AssertUnsat += o.AssertUnsat
	s.AssertSat += o.AssertSat
	s.AssertUnk += o.AssertUnk
	s.BranchUnk += o.BranchUnk
	s.Timeouts += o.Timeouts
	s.Repaired += o.Repaired
	s.Cross += o.Cross
	for k, v := range o.UnsupMsg {
		s.UnsupMsg[k] += v
	}
	for k, v := range o.Reach {
		s.Reach[k] += v
	}
	for k := range o.Funcs {
		s.Funcs[k] = true
	}
	for k, v := range o.Imprecise {
		s.Imprecise[k] += v
	}
}

func sortedKeys[V any](m map[string]V) []string {
	r := make([]string, 0, len(m))
	for k := range m {
		r = append(r, k)
	}
	sort.Strings(r)
	return r
}
