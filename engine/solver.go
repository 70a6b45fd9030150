package main

import (
	"bufio"
	"fmt"
	"io"
	"os/exec"
	"strconv"
	"strings"
	"time"
)

// Result of a satisfiability query.
type Result int

const (
	Unsat Result = iota
	Sat
	Unknown
)

// Solver drives one incremental SMT solver process.
type Solver struct {
	bin       []string
	cmd       *exec.Cmd
	in        *bufio.Writer
	inc       io.WriteCloser
	out       *bufio.Reader
	stack     []*Term // asserted terms, one push level each
	gen       int32   // generation: bumped on restart so definitions are re-emitted
	ndefs     int
	TimeoutMS int

	Queries, SatN, UnsatN, UnknownN, Errors int
	Time                                    time.Duration
	log                                     io.Writer
}

func newSolver(bin []string, timeoutMS int) *Solver {
	return &Solver{bin: bin, TimeoutMS: timeoutMS}
}

func (s *Solver) start() error {
	s.cmd = exec.Command(s.bin[0], s.bin[1:]...)
	w, err := s.cmd.StdinPipe()
	if err != nil {
		return err
	}
	r, err := s.cmd.StdoutPipe()
	if err != nil {
		return err
	}
	if err := s.cmd.Start(); err != nil {
		return err
	}
	s.inc = w
	s.in = bufio.NewWriterSize(w, 1<<16)
	s.out = bufio.NewReaderSize(r, 1<<16)
	s.gen++
	s.ndefs = 0
	s.stack = nil
	s.send("(set-option :print-success false)\n(set-option :global-declarations true)\n(set-option :produce-models true)\n")
	if strings.Contains(s.bin[0], "z3") {
		s.send(fmt.Sprintf("(set-option :timeout %d)\n", s.TimeoutMS))
	} else {
		s.send("(set-logic QF_BV)\n")
	}
	return nil
}

func (s *Solver) close() {
	if s.cmd != nil {
		s.inc.Close()
		s.cmd.Process.Kill()
		s.cmd.Wait()
		s.cmd = nil
	}
}

func (s *Solver) send(x string) {
	s.in.WriteString(x)
	if s.log != nil {
		io.WriteString(s.log, x)
	}
}

// define emits definitions for t and everything below it.
func (s *Solver) define(t *Term) {
	if t.op == OpConst || t.defined == s.gen {
		return
	}
	if t.op == OpVar {
		t.defined = s.gen
		s.send("(declare-const " + t.ref() + " " + sortName(t.w) + ")\n")
		return
	}
	for _, a := range t.args {
		s.define(a)
	}
	t.defined = s.gen
	s.ndefs++
	s.send("(define-fun " + t.ref() + " () " + sortName(t.w) + " " + t.body() + ")\n")
}

// sync makes the solver's assertion stack equal to pc.
func (s *Solver) sync(pc []*Term) error {
	if s.cmd == nil || s.ndefs > 60000 {
		s.close()
		if err := s.start(); err != nil {
			return err
		}
	}
	n := 0
	for n < len(pc) && n < len(s.stack) && pc[n] == s.stack[n] {
		n++
	}
	if n < len(s.stack) {
		s.send(fmt.Sprintf("(pop %d)\n", len(s.stack)-n))
		s.stack = s.stack[:n]
	}
	for ; n < len(pc); n++ {
		s.define(pc[n])
		s.send("(push 1)\n(assert " + pc[n].ref() + ")\n")
		s.stack = append(s.stack, pc[n])
	}
	return nil
}

// Check decides pc AND cond. On Sat it returns a model over all declared variables.
// Only the listed variables are read back into the model.
func (s *Solver) Check(pc []*Term, cond *Term, vars []*Term) (Result, map[*Term]uint64) {
	t0 := time.Now()
	defer func() { s.Time += time.Since(t0) }()
	s.Queries++
	if err := s.sync(pc); err != nil {
		s.Errors++
		return Unknown, nil
	}
	if cond != nil {
		s.define(cond)
		s.send("(push 1)\n(assert " + cond.ref() + ")\n")
	}
	s.send("(check-sat)\n")
	s.in.Flush()
	line, err := s.out.ReadString('\n')
	if err != nil {
		s.Errors++
		s.close()
		s.UnknownN++
		return Unknown, nil
	}
	line = strings.TrimSpace(line)
	var model map[*Term]uint64
	res := Unknown
	switch line {
	case "sat":
		res = Sat
		s.SatN++
		model, err = s.getModel(vars)
		if err != nil {
			s.Errors++
			s.close()
			return Unknown, nil
		}
	case "unsat":
		res = Unsat
		s.UnsatN++
	default:
		s.UnknownN++
		if strings.HasPrefix(line, "(error") {
			s.Errors++
			s.close()
			return Unknown, nil
		}
	}
	if cond != nil {
		s.send("(pop 1)\n")
	}
	return res, model
}

func (s *Solver) getModel(vars []*Term) (map[*Term]uint64, error) {
	m := map[*Term]uint64{}
	order := make([]*Term, 0, len(vars))
	for _, v := range vars {
		if v.defined == s.gen {
			order = append(order, v)
		}
	}
	if len(order) == 0 {
		return m, nil
	}
	s.send("(get-value (")
	for _, v := range order {
		s.send(v.ref())
		s.send(" ")
	}
	s.send("))\n")
	s.in.Flush()
	// read a balanced s-expression
	depth := 0
	var sb strings.Builder
	inBar := false
	for {
		b, err := s.out.ReadByte()
		if err != nil {
			return nil, err
		}
		if b == '|' {
			inBar = !inBar
		}
		if !inBar {
			if b == '(' {
				depth++
			} else if b == ')' {
				depth--
			}
		}
		sb.WriteByte(b)
		if depth == 0 && b == ')' {
			break
		}
	}
	s.out.ReadString('\n')
	txt := sb.String()
	if strings.HasPrefix(txt, "(error") {
		return nil, fmt.Errorf("%s", txt)
	}
	i := 0
	for _, v := range order {
		r := v.ref()
		j := strings.Index(txt[i:], r)
		bare := r
		if j < 0 { // solvers drop the bars when not needed
			bare = v.name
			j = strings.Index(txt[i:], "("+bare+" ")
			if j < 0 {
				return nil, fmt.Errorf("model lacks %s", r)
			}
			j++
		}
		i += j + len(bare)
		e := strings.IndexByte(txt[i:], ')')
		val := strings.TrimSpace(txt[i : i+e])
		switch {
		case val == "true":
			m[v] = 1
		case val == "false":
			m[v] = 0
		case strings.HasPrefix(val, "#x"):
			x, err := strconv.ParseUint(val[2:], 16, 64)
			if err != nil {
				return nil, err
			}
			m[v] = x
		case strings.HasPrefix(val, "#b"):
			x, err := strconv.ParseUint(val[2:], 2, 64)
			if err != nil {
				return nil, err
			}
			m[v] = x
		case strings.HasPrefix(val, "(_ bv"):
			f := strings.Fields(val[5:])
			x, err := strconv.ParseUint(f[0], 10, 64)
			if err != nil {
				return nil, err
			}
			m[v] = x
		default:
			return nil, fmt.Errorf("bad model value %q", val)
		}
		i += e
	}
	return m, nil
}
