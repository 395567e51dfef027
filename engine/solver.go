package main

import (
	"bufio"
	"fmt"
	"io"
	"math/big"
	"os/exec"
	"strings"
	"sync/atomic"
	"time"
)

type Result int

const (
	Unsat Result = iota
	Sat
	Unknown
)

func (r Result) String() string { return [...]string{"unsat", "sat", "unknown"}[r] }

// SolverStats is shared by all workers of a run.
type SolverStats struct {
	queries, sat, unsat, unknown, fallback int64
	nanos                                  int64
	maxNanos                               int64
	errors                                 int64
	models                                 int64 // branch sides settled by re-evaluating a solver model
	intervals                              int64 // branch sides settled by interval reasoning
	cross                                  int64 // queries repeated on the second solver
	crossDisagree                          int64
	repairs                                int64 // satisfiable questions answered by repairing the current model
	confirmed                              int64 // decisions by value sets or intervals repeated on the solver
	domains                                int64 // questions about one small variable answered from its value set
}

func (s *SolverStats) add(d time.Duration, r Result) {
	atomic.AddInt64(&s.queries, 1)
	atomic.AddInt64(&s.nanos, int64(d))
	for {
		m := atomic.LoadInt64(&s.maxNanos)
		if int64(d) <= m || atomic.CompareAndSwapInt64(&s.maxNanos, m, int64(d)) {
			break
		}
	}
	switch r {
	case Sat:
		atomic.AddInt64(&s.sat, 1)
	case Unsat:
		atomic.AddInt64(&s.unsat, 1)
	default:
		atomic.AddInt64(&s.unknown, 1)
	}
}

// Solver keeps one z3 process alive; the assertion stack is synchronised
// lazily with the path condition of the current path.
type Solver struct {
	ts       *TermStore
	cmd      *exec.Cmd
	in       *bufio.Writer
	inC      io.WriteCloser
	out      *bufio.Reader
	defined  map[*Term]bool
	stack    []*Term
	stats    *SolverStats
	timeout  int // ms
	cross    int // every n-th unsat answer is repeated on the second solver
	nUnsat   int
	dead     bool
	restarts int
}

func newSolver(ts *TermStore, st *SolverStats) *Solver {
	s := &Solver{ts: ts, stats: st, timeout: 4000, cross: 64}
	s.start()
	return s
}

func (s *Solver) start() {
	s.cmd = exec.Command("z3", "-in")
	in, err := s.cmd.StdinPipe()
	if err != nil {
		panic(err)
	}
	out, err := s.cmd.StdoutPipe()
	if err != nil {
		panic(err)
	}
	if err := s.cmd.Start(); err != nil {
		panic(err)
	}
	s.inC = in
	s.in = bufio.NewWriterSize(in, 1<<16)
	s.out = bufio.NewReaderSize(out, 1<<16)
	s.defined = map[*Term]bool{}
	s.stack = nil
	fmt.Fprintf(s.in, "(set-option :global-declarations true)\n(set-option :timeout %d)\n(set-option :model.completion true)\n", s.timeout)
}

func (s *Solver) close() {
	if s.cmd == nil {
		return
	}
	s.in.Flush()
	s.inC.Close()
	s.cmd.Process.Kill()
	s.cmd.Wait()
	s.cmd = nil
}

func (s *Solver) restart() {
	s.close()
	s.restarts++
	s.start()
}

// define emits the declarations needed by t.
func (s *Solver) define(w io.Writer, done map[*Term]bool, t *Term) {
	if done[t] {
		return
	}
	switch t.op {
	case OpConst, OpTrue, OpFalse:
		return
	}
	type fr struct {
		t *Term
		i int
	}
	st := []fr{{t, 0}}
	for len(st) > 0 {
		f := &st[len(st)-1]
		if done[f.t] {
			st = st[:len(st)-1]
			continue
		}
		if f.i < len(f.t.args) {
			a := f.t.args[f.i]
			f.i++
			if !done[a] && a.op != OpConst && a.op != OpTrue && a.op != OpFalse {
				st = append(st, fr{a, 0})
			}
			continue
		}
		x := f.t
		st = st[:len(st)-1]
		done[x] = true
		switch x.op {
		case OpVar:
			fmt.Fprintf(w, "(declare-const v%d Int)\n", x.id)
		case OpBVar:
			fmt.Fprintf(w, "(declare-const v%d Bool)\n", x.id)
		case OpConst, OpTrue, OpFalse:
		default:
			srt := "Int"
			if x.isBool() {
				srt = "Bool"
			}
			fmt.Fprintf(w, "(define-fun t%d () %s %s)\n", x.id, srt, body(x))
		}
	}
}

func varBound(v *Term) string {
	if v.op != OpVar {
		return "true"
	}
	return fmt.Sprintf("(and (<= %s v%d) (<= v%d %s))", smtInt(v.lo), v.id, v.id, smtInt(v.hi))
}

// collectVars adds the variables of t to set.
func collectVars(t *Term, seen map[*Term]bool, out *[]*Term) {
	if seen[t] {
		return
	}
	seen[t] = true
	if t.op == OpVar || t.op == OpBVar {
		*out = append(*out, t)
		return
	}
	for _, a := range t.args {
		collectVars(a, seen, out)
	}
}

func (s *Solver) sync(pc []*Term) {
	n := 0
	for n < len(pc) && n < len(s.stack) && pc[n] == s.stack[n] {
		n++
	}
	if k := len(s.stack) - n; k > 0 {
		fmt.Fprintf(s.in, "(pop %d)\n", k)
		s.stack = s.stack[:n]
	}
	for ; n < len(pc); n++ {
		s.push(pc[n])
	}
}

func (s *Solver) push(t *Term) {
	s.define(s.in, s.defined, t)
	s.in.WriteString("(push 1)\n")
	// bounds of the variables of t are asserted with the first constraint that
	// mentions them on this stack; asserting again is harmless
	var vs []*Term
	collectVars(t, map[*Term]bool{}, &vs)
	for _, v := range vs {
		if v.op == OpVar {
			fmt.Fprintf(s.in, "(assert %s)\n", varBound(v))
		}
	}
	fmt.Fprintf(s.in, "(assert %s)\n", ref(t))
	s.stack = append(s.stack, t)
}

// Check decides pc /\ extra. On Sat the model covers all variables of pc and
// extra.
func (s *Solver) Check(pc []*Term, extra *Term) (Result, Model) {
	t0 := time.Now()
	r, m := s.check(pc, extra)
	s.stats.add(time.Since(t0), r)
	if r == Unknown {
		atomic.AddInt64(&s.stats.fallback, 1)
		t0 = time.Now()
		r2, m2 := s.oneShot(append(append([]*Term{}, pc...), extra), []string{"z3-new", "-in", "-T:20"})
		if r2 == Unknown {
			r2, m2 = s.oneShot(append(append([]*Term{}, pc...), extra), []string{"cvc5", "--lang=smt2", "--tlimit=20000", "--produce-models"})
		}
		s.stats.add(time.Since(t0), r2)
		return r2, m2
	}
	if r == Unsat && s.cross > 0 {
		s.nUnsat++
		if s.nUnsat%s.cross == 0 {
			atomic.AddInt64(&s.stats.cross, 1)
			r2, _ := s.oneShot(append(append([]*Term{}, pc...), extra), []string{"cvc5", "--lang=smt2", "--tlimit=5000", "--produce-models"})
			if r2 == Sat {
				atomic.AddInt64(&s.stats.crossDisagree, 1)
				return Unknown, nil
			}
		}
	}
	return r, m
}

func (s *Solver) check(pc []*Term, extra *Term) (Result, Model) {
	if len(s.defined) > 200000 {
		s.restart()
	}
	s.sync(pc)
	if extra != nil {
		s.push(extra)
	}
	var vs []*Term
	seen := map[*Term]bool{}
	for _, p := range s.stack {
		collectVars(p, seen, &vs)
	}
	s.in.WriteString("(check-sat)\n")
	s.in.Flush()
	line, err := s.readLine()
	if err != nil {
		s.restart()
		return Unknown, nil
	}
	var r Result
	switch line {
	case "sat":
		r = Sat
	case "unsat":
		r = Unsat
	default:
		r = Unknown
		if strings.HasPrefix(line, "(error") {
			atomic.AddInt64(&s.stats.errors, 1)
			s.restart()
			return Unknown, nil
		}
	}
	var m Model
	if r == Sat {
		m = Model{}
		if len(vs) > 0 {
			var b strings.Builder
			b.WriteString("(get-value (")
			for _, v := range vs {
				fmt.Fprintf(&b, "v%d ", v.id)
			}
			b.WriteString("))\n")
			s.in.WriteString(b.String())
			s.in.Flush()
			txt, err := s.readSexp()
			if err != nil || !parseModel(txt, vs, m) {
				atomic.AddInt64(&s.stats.errors, 1)
				s.restart()
				return Unknown, nil
			}
		}
		// never trust a model that does not satisfy the constraints
		e := newEval(m)
		for _, p := range s.stack {
			if !e.Bool(p) {
				atomic.AddInt64(&s.stats.errors, 1)
				s.restart()
				return Unknown, nil
			}
		}
	}
	if extra != nil {
		s.in.WriteString("(pop 1)\n")
		s.stack = s.stack[:len(s.stack)-1]
	}
	return r, m
}

func (s *Solver) readLine() (string, error) {
	for {
		l, err := s.out.ReadString('\n')
		if err != nil {
			return "", err
		}
		l = strings.TrimSpace(l)
		if l != "" {
			return l, nil
		}
	}
}

func readSexpFrom(r *bufio.Reader) (string, error) {
	var b strings.Builder
	depth := 0
	started := false
	for {
		c, err := r.ReadByte()
		if err != nil {
			return b.String(), err
		}
		b.WriteByte(c)
		if c == '(' {
			depth++
			started = true
		} else if c == ')' {
			depth--
		}
		if started && depth == 0 {
			return b.String(), nil
		}
	}
}

func (s *Solver) readSexp() (string, error) { return readSexpFrom(s.out) }

// parseModel reads ((v1 5) (v2 (- 3)) (v3 true) ...)
func parseModel(txt string, vs []*Term, m Model) bool {
	txt = strings.NewReplacer("(", " ( ", ")", " ) ").Replace(txt)
	toks := strings.Fields(txt)
	byName := map[string]*Term{}
	for _, v := range vs {
		byName[fmt.Sprintf("v%d", v.id)] = v
	}
	for i := 0; i < len(toks); i++ {
		v, ok := byName[toks[i]]
		if !ok {
			if strings.HasPrefix(toks[i], "error") || strings.Contains(toks[i], "error") {
				return false
			}
			continue
		}
		i++
		if i >= len(toks) {
			return false
		}
		switch toks[i] {
		case "true":
			m[v] = big.NewInt(1)
		case "false":
			m[v] = big.NewInt(0)
		case "(":
			if i+2 < len(toks) && toks[i+1] == "-" {
				n, ok := new(big.Int).SetString(toks[i+2], 10)
				if !ok {
					return false
				}
				m[v] = n.Neg(n)
				i += 3
			} else {
				return false
			}
		default:
			n, ok := new(big.Int).SetString(toks[i], 10)
			if !ok {
				return false
			}
			m[v] = n
		}
	}
	return len(m) == len(vs)
}

// oneShot runs a fresh solver process on the conjunction of cs.
func (s *Solver) oneShot(cs []*Term, argv []string) (Result, Model) {
	var b strings.Builder
	b.WriteString("(set-option :produce-models true)\n(set-logic ALL)\n")
	done := map[*Term]bool{}
	var vs []*Term
	seen := map[*Term]bool{}
	for _, c := range cs {
		if c == nil {
			continue
		}
		s.define(&b, done, c)
		collectVars(c, seen, &vs)
	}
	for _, v := range vs {
		fmt.Fprintf(&b, "(assert %s)\n", varBound(v))
	}
	for _, c := range cs {
		if c != nil {
			fmt.Fprintf(&b, "(assert %s)\n", ref(c))
		}
	}
	b.WriteString("(check-sat)\n(get-value (")
	if len(vs) == 0 {
		b.WriteString("true")
	}
	for _, v := range vs {
		fmt.Fprintf(&b, "v%d ", v.id)
	}
	b.WriteString("))\n")
	cmd := exec.Command(argv[0], argv[1:]...)
	cmd.Stdin = strings.NewReader(b.String())
	out, _ := cmd.Output()
	txt := string(out)
	nl := strings.IndexByte(txt, '\n')
	if nl < 0 {
		return Unknown, nil
	}
	switch strings.TrimSpace(txt[:nl]) {
	case "unsat":
		return Unsat, nil
	case "sat":
		m := Model{}
		if len(vs) > 0 && !parseModel(txt[nl:], vs, m) {
			return Unknown, nil
		}
		e := newEval(m)
		for _, c := range cs {
			if c != nil && !e.Bool(c) {
				return Unknown, nil
			}
		}
		return Sat, m
	}
	return Unknown, nil
}
