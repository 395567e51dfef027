package main

import (
	"fmt"
	"math/big"
	"math/bits"
	"sync/atomic"
)

// Decision is one entry of the decision trail of a path. Replaying the trail
// reproduces the path exactly.
type Decision struct {
	K byte  // 'b' branch, 'c' concretise (value V, taken T), 'n' choice
	V int64 // branch: 0/1; concretise: value; choice: alternative
	T bool  // concretise: equal taken
}

// Input is one symbolic input of the harness in creation order.
type Input struct {
	name string
	kind string // int, bool, byte, choice, str
	t    *Term  // nil for concrete values
	v    int64
	idx  int
}

type Path struct {
	trail     []Decision // decisions taken so far (prefix given by the work item)
	pos       int
	given     int
	pc        []*Term
	pcS       []*Term              // the constraints the solver has to see
	doms      map[*Term]*[4]uint64 // remaining values of small variables
	pend      map[*Term][]*Term    // constraints on small variables the solver has not seen
	byVar     map[*Term][]*Term    // constraints over several variables
	hint      map[string]*big.Int  // model of the path condition at the end of the given trail
	inS       map[*Term]bool       // small variables known to the solver
	bounds    boundsMap
	model     *evaluator // satisfies pc
	steps     int
	maxSteps  int
	inputs    []Input
	nvar      map[string]int
	partial   map[string]int // reasons for incomplete exploration on this path
	asserts   int
	reached   map[string]bool
	observed  []string
	observedV []Value
	viol      *Violation
	labels    []string

	// scheduler
	gs        []*G
	cur       *G
	runq      []*G
	now       Value
	timers    []*timer
	nextG     int
	explore   bool
	preempt   int
	killed    bool
	endCh     chan pathResult
	ended     bool
	schedule  []int
	race      *raceState
	timeLimit int64

	mutexes   map[*Value]*mutexSt
	conds     map[*Value]*condSt
	wgs       map[*Value]*wgSt
	onces     map[*Value]*onceSt
	pools     map[*Value]*poolSt
	atoms     map[*Value]*atomSt
	builders  map[*Value]*builderSt
	side      map[string]any
	files     map[string]Value
	blobs     int
	frozen    bool
	explored  bool
	knownV    []*Violation
	realCodec bool
}

type pathResult struct {
	kind  string // ok, assume, violation, error, bound, deadlock, panic
	msg   string
	where string
}

// Violation is a failed assertion together with a model of the inputs.
type Violation struct {
	Msg      string
	Where    string
	Kind     string
	Inputs   []InputVal
	Sched    []int
	Trail    []Decision
	Observed []string
	Labels   []string
	Explored bool // the path explored schedules
	KnownID  string
}

type InputVal struct {
	Name string `json:"name"`
	Kind string `json:"kind"`
	V    int64  `json:"v"`
}

func (it *Interp) assertPC(c *Term) {
	p := it.p
	if c.op == OpTrue {
		return
	}
	if c.op == OpAnd {
		for _, a := range c.args {
			it.assertPC(a)
		}
		return
	}
	if c.op == OpNot && c.args[0].op == OpOr {
		for _, a := range c.args[0].args {
			it.assertPC(it.ts.Not(a))
		}
		return
	}
	p.pc = append(p.pc, c)
	it.ts.learn(c, p.bounds)
	if v := support(c); v != nil {
		d := p.dom(v)
		t := it.ts.table(c)
		for i := range d {
			d[i] &= t[i]
		}
		if !p.inS[v] {
			p.pend[v] = append(p.pend[v], c)
			return
		}
	} else {
		p.promote(c)
		var vs []*Term
		collectVars(c, map[*Term]bool{}, &vs)
		for _, v := range vs {
			p.byVar[v] = append(p.byVar[v], c)
		}
	}
	p.pcS = append(p.pcS, c)
}

// Constraints over a single small variable (a byte, a boolean) are kept as the
// set of its remaining values; as long as such a variable occurs in no other
// constraint, questions about it alone are answered exactly from that set. All
// other questions go to the solver, together with the constraints of every
// variable involved.

func smallVar(v *Term) bool {
	if v.op == OpBVar {
		return true
	}
	if v.op != OpVar {
		return false
	}
	d := new(big.Int).Sub(v.hi, v.lo)
	return d.IsInt64() && d.Int64() < 256
}

func (t *Term) sup() int8 {
	if t.nv != 0 {
		return t.nv
	}
	switch t.op {
	case OpVar, OpBVar:
		if smallVar(t) {
			t.v1, t.nv = t, 2
		} else {
			t.nv = 3
		}
		return t.nv
	}
	t.nv = 1
	for _, a := range t.args {
		switch a.sup() {
		case 2:
			if t.nv == 1 {
				t.nv, t.v1 = 2, a.v1
			} else if t.v1 != a.v1 {
				t.nv, t.v1 = 3, nil
				return 3
			}
		case 3:
			t.nv, t.v1 = 3, nil
			return 3
		}
	}
	return t.nv
}

// support returns the variable of c if c depends on one small variable only.
func support(c *Term) *Term {
	if c.sup() == 2 {
		return c.v1
	}
	return nil
}

func varCount(v *Term) int {
	if v.op == OpBVar {
		return 2
	}
	return int(new(big.Int).Sub(v.hi, v.lo).Int64()) + 1
}

func varVal(v *Term, i int) *big.Int {
	if v.op == OpBVar {
		return big.NewInt(int64(i))
	}
	return new(big.Int).Add(v.lo, big.NewInt(int64(i)))
}

func (ts *TermStore) table(c *Term) *[4]uint64 {
	if c.tab != nil {
		return c.tab
	}
	t := new([4]uint64)
	for i, n := 0, varCount(c.v1); i < n; i++ {
		e := newEval(Model{c.v1: varVal(c.v1, i)})
		if e.Bool(c) {
			t[i/64] |= 1 << (i % 64)
		}
	}
	c.tab = t
	return t
}

func (p *Path) dom(v *Term) *[4]uint64 {
	d := p.doms[v]
	if d == nil {
		d = new([4]uint64)
		for i, n := 0, varCount(v); i < n; i++ {
			d[i/64] |= 1 << (i % 64)
		}
		p.doms[v] = d
	}
	return d
}

// promote makes the solver aware of all small variables of c.
func (p *Path) promote(c *Term) {
	var vs []*Term
	collectVars(c, map[*Term]bool{}, &vs)
	for _, v := range vs {
		if p.inS[v] {
			continue
		}
		p.inS[v] = true
		p.pcS = append(p.pcS, p.pend[v]...)
		delete(p.pend, v)
	}
}

// sat decides whether the path condition and extra (may be nil) are
// satisfiable. With a model of the path condition at hand it first tries to
// repair that model.
func (it *Interp) sat(extra *Term) (Result, *evaluator) {
	p := it.p
	if extra != nil && !it.e.noDomains {
		if v := support(extra); v != nil {
			d, t := p.dom(v), it.ts.table(extra)
			first := -1
			for i := range d {
				if x := d[i] & t[i]; x != 0 {
					first = i*64 + bits.TrailingZeros64(x)
					break
				}
			}
			if first < 0 {
				atomic.AddInt64(&it.e.stats.domains, 1)
				it.confirm(extra)
				return Unsat, nil
			}
			if !p.inS[v] && p.model != nil {
				atomic.AddInt64(&it.e.stats.domains, 1)
				m := p.model.copyModel()
				m[v] = varVal(v, first)
				return Sat, newEval(m)
			}
		}
		if p.model != nil {
			if m := it.repair(extra); m != nil {
				atomic.AddInt64(&it.e.stats.repairs, 1)
				return Sat, m
			}
		}
	}
	if extra != nil && !it.e.noDomains && it.refute(extra) {
		atomic.AddInt64(&it.e.stats.domains, 1)
		it.confirm(extra)
		return Unsat, nil
	}
	if extra != nil {
		p.promote(extra)
	}
	m := Model{}
	if extra != nil || len(p.pcS) > 0 {
		var r Result
		r, m = it.w.solver.Check(p.pcS, extra)
		if r != Sat {
			return r, nil
		}
	}
	for v, d := range p.doms {
		if *d == [4]uint64{} {
			return Unsat, nil
		}
		if p.inS[v] {
			continue
		}
		for k := range d {
			if d[k] != 0 {
				m[v] = varVal(v, k*64+bits.TrailingZeros64(d[k]))
				break
			}
		}
	}
	return Sat, newEval(m)
}

// confirm puts a question that was settled as unsatisfiable by value sets or
// intervals to the solver as well, for the first maxConfirm ones of a harness
// and every 64th after them.
func (it *Interp) confirm(extra *Term) {
	n := atomic.AddInt64(&it.e.confirms, 1)
	if n > maxConfirm && n%64 != 0 {
		return
	}
	p := it.p
	q := extra
	var vs []*Term
	collectVars(extra, map[*Term]bool{}, &vs)
	for _, v := range vs {
		if !p.inS[v] {
			for _, c := range p.pend[v] {
				q = it.ts.And(q, c)
			}
		}
	}
	if q.op == OpFalse {
		return
	}
	atomic.AddInt64(&it.e.stats.confirmed, 1)
	if r, _ := it.w.solver.Check(p.pcS, q); r == Sat {
		panic(engineErr{"the solver refutes a decision made by value sets", ""})
	}
}

const maxConfirm = 3000

// repair looks for a model of the path condition and extra that differs from
// the current model in the small variables of extra only.
func (it *Interp) repair(extra *Term) *evaluator {
	p := it.p
	tries := 0
	var rec func(goals []*Term, fix map[*Term]*[4]uint64) *evaluator
	finish := func(fix map[*Term]*[4]uint64) *evaluator {
		// a few values per variable, all variables moved together
		for k := 0; k < 6 && tries < 24; k++ {
			tries++
			m := p.model.copyModel()
			for v, d := range fix {
				var vals []int
				for w := range d {
					for x := d[w]; x != 0; x &= x - 1 {
						vals = append(vals, w*64+bits.TrailingZeros64(x))
					}
				}
				var i int
				switch k {
				case 0:
					i = 0
				case 1:
					i = len(vals) - 1
				case 2:
					i = len(vals) / 2
				default:
					i = (k * 7) % len(vals)
				}
				m[v] = varVal(v, vals[i])
			}
			e := newEval(m)
			ok := e.Bool(extra)
			for v := range fix {
				for _, c := range p.byVar[v] {
					if !ok {
						break
					}
					ok = e.Bool(c)
				}
			}
			if ok {
				return e
			}
		}
		return nil
	}
	rec = func(goals []*Term, fix map[*Term]*[4]uint64) *evaluator {
		for len(goals) > 0 {
			g := goals[0]
			goals = goals[1:]
			if v := support(g); v != nil {
				t := it.ts.table(g)
				d := fix[v]
				if d == nil {
					d = p.dom(v)
				}
				n := *d
				z := true
				for i := range n {
					n[i] &= t[i]
					z = z && n[i] == 0
				}
				if z {
					return nil
				}
				f2 := make(map[*Term]*[4]uint64, len(fix)+1)
				for k, x := range fix {
					f2[k] = x
				}
				f2[v] = &n
				fix = f2
				continue
			}
			neg := false
			x := g
			if x.op == OpNot {
				neg = true
				x = x.args[0]
			}
			switch {
			case x.op == OpAnd && !neg || x.op == OpOr && neg:
				for _, a := range x.args {
					if neg {
						a = it.ts.Not(a)
					}
					goals = append(goals, a)
				}
			case x.op == OpOr || x.op == OpAnd:
				for _, a := range x.args {
					if tries >= 24 {
						return nil
					}
					if neg {
						a = it.ts.Not(a)
					}
					if e := rec(append(append([]*Term{}, goals...), a), fix); e != nil {
						return e
					}
				}
				return nil
			default:
				if p.model.Bool(g) {
					continue // may still hold afterwards
				}
				return nil
			}
		}
		return finish(fix)
	}
	return rec([]*Term{extra}, nil)
}

// refute tries to show by propagation over the value sets of small variables
// that extra contradicts the path condition.
func (it *Interp) refute(extra *Term) bool {
	p := it.p
	narrow := map[*Term]*[4]uint64{}
	get := func(v *Term) *[4]uint64 {
		if d := narrow[v]; d != nil {
			return d
		}
		return p.dom(v)
	}
	var queue []*Term
	// possible: 0 impossible, 1 possible
	var possible func(c *Term) bool
	possible = func(c *Term) bool {
		if v := support(c); v != nil {
			d, t := get(v), it.ts.table(c)
			for i := range d {
				if d[i]&t[i] != 0 {
					return true
				}
			}
			return false
		}
		x, neg := c, false
		if x.op == OpNot {
			x, neg = x.args[0], true
		}
		switch {
		case x.op == OpAnd && !neg, x.op == OpOr && neg:
			for _, a := range x.args {
				if neg {
					a = it.ts.Not(a)
				}
				if !possible(a) {
					return false
				}
			}
			return true
		case x.op == OpOr, x.op == OpAnd:
			for _, a := range x.args {
				if neg {
					a = it.ts.Not(a)
				}
				if possible(a) {
					return true
				}
			}
			return false
		}
		return c.op != OpFalse
	}
	var impose func(c *Term) bool // false: contradiction
	impose = func(c *Term) bool {
		if v := support(c); v != nil {
			d, t := get(v), it.ts.table(c)
			n := *d
			z := true
			for i := range n {
				n[i] &= t[i]
				z = z && n[i] == 0
			}
			if z {
				return false
			}
			if n != *d {
				narrow[v] = &n
				queue = append(queue, v)
			}
			return true
		}
		x, neg := c, false
		if x.op == OpNot {
			x, neg = x.args[0], true
		}
		switch {
		case x.op == OpAnd && !neg, x.op == OpOr && neg:
			for _, a := range x.args {
				if neg {
					a = it.ts.Not(a)
				}
				if !impose(a) {
					return false
				}
			}
			return true
		case x.op == OpOr, x.op == OpAnd:
			var only *Term
			n := 0
			for _, a := range x.args {
				if neg {
					a = it.ts.Not(a)
				}
				if possible(a) {
					n++
					only = a
				}
			}
			if n == 0 {
				return false
			}
			if n == 1 {
				return impose(only)
			}
			return true
		}
		return c.op != OpFalse
	}
	if !impose(extra) {
		return true
	}
	for n := 0; len(queue) > 0 && n < 200; n++ {
		v := queue[0]
		queue = queue[1:]
		for _, c := range p.byVar[v] {
			if !impose(c) {
				return true
			}
		}
	}
	return !impose(extra)
}

func (e *evaluator) copyModel() Model {
	m := make(Model, len(e.m)+1)
	for k, v := range e.m {
		m[k] = v
	}
	return m
}

// named renders a model independently of the term store.
func (e *evaluator) named() map[string]*big.Int {
	m := make(map[string]*big.Int, len(e.m))
	for k, v := range e.m {
		m[k.name] = v
	}
	return m
}

// branch decides a symbolic condition on the current path, scheduling the
// other side for exploration when it is feasible.
func (it *Interp) branch(c *Term) bool {
	switch c.op {
	case OpTrue:
		return true
	case OpFalse:
		return false
	}
	p := it.p
	if v, known := it.ts.decide(c, p.bounds); known {
		atomic.AddInt64(&it.e.stats.intervals, 1)
		if p.pos >= len(p.trail) {
			if v {
				it.confirm(it.ts.Not(c))
			} else {
				it.confirm(c)
			}
		}
		return v
	}
	if p.pos < len(p.trail) {
		d := p.trail[p.pos]
		if d.K != 'b' {
			panic(engineErr{fmt.Sprintf("trail mismatch: expected branch, got %c", d.K), ""})
		}
		p.pos++
		v := d.V != 0
		if v {
			it.assertPC(c)
		} else {
			it.assertPC(it.ts.Not(c))
		}
		p.model = nil
		return v
	}
	it.ensureModel()
	side := p.model.Bool(c)
	atomic.AddInt64(&it.e.stats.models, 1)
	cc, oc := c, it.ts.Not(c)
	if !side {
		cc, oc = oc, cc
	}
	r, am := it.sat(oc)
	if r == Unknown {
		p.partial["solver-unknown"]++
	}
	if r == Sat || r == Unknown {
		alt := make([]Decision, len(p.trail), len(p.trail)+1)
		copy(alt, p.trail)
		alt = append(alt, Decision{K: 'b', V: b2i(!side)})
		it.w.addWork(alt, am)
	}
	p.trail = append(p.trail, Decision{K: 'b', V: b2i(side)})
	p.pos++
	it.assertPC(cc)
	return side
}

func b2i(b bool) int64 {
	if b {
		return 1
	}
	return 0
}

// ensureModel makes p.model a model of the path condition.
func (it *Interp) ensureModel() {
	p := it.p
	if p.model != nil {
		return
	}
	if p.hint != nil {
		m := Model{}
		var vs []*Term
		seen := map[*Term]bool{}
		for _, c := range p.pc {
			collectVars(c, seen, &vs)
		}
		for _, in := range p.inputs {
			if in.t != nil {
				collectVars(in.t, seen, &vs)
			}
		}
		for _, v := range vs {
			if x, ok := p.hint[v.name]; ok {
				m[v] = x
			}
		}
		p.hint = nil
		e := newEval(m)
		ok := true
		for _, c := range p.pc {
			if !e.Bool(c) {
				ok = false
				break
			}
		}
		if ok {
			p.model = e
			return
		}
	}
	r, m := it.sat(nil)
	switch r {
	case Unsat:
		panic(pathEnd{"infeasible"})
	case Unknown:
		p.partial["solver-unknown"]++
		panic(pathEnd{"bound:solver-unknown"})
	}
	p.model = m
}

// concretize forks over the values of t.
func (it *Interp) concretize(t *Term) int64 {
	if t.isConst() {
		return it.simp(t).(int64)
	}
	p := it.p
	lo, hi := it.ts.interval(t, p.bounds)
	if lo != nil && hi != nil && lo.Cmp(hi) == 0 {
		return it.simp(it.ts.Big(lo)).(int64)
	}
	for n := 0; ; n++ {
		if p.pos < len(p.trail) {
			d := p.trail[p.pos]
			if d.K != 'c' {
				panic(engineErr{fmt.Sprintf("trail mismatch: expected value, got %c", d.K), ""})
			}
			p.pos++
			p.model = nil
			eq := it.ts.Eq(t, it.ts.Big(valBig(t, d.V)))
			if d.T {
				it.assertPC(eq)
				return d.V
			}
			it.assertPC(it.ts.Not(eq))
			continue
		}
		it.ensureModel()
		bv := p.model.Int(t)
		v := it.simp(it.ts.Big(bv)).(int64)
		eq := it.ts.Eq(t, it.ts.Big(bv))
		ne := it.ts.Not(eq)
		if n < it.e.maxConc {
			r := Sat
			var am *evaluator
			if ne.op == OpFalse {
				r = Unsat
			} else if kv, known := it.ts.decide(ne, p.bounds); known && !kv {
				r = Unsat
			} else {
				r, am = it.sat(ne)
			}
			if r != Unsat {
				alt := make([]Decision, len(p.trail), len(p.trail)+1)
				copy(alt, p.trail)
				alt = append(alt, Decision{K: 'c', V: v, T: false})
				it.w.addWork(alt, am)
			}
		} else {
			p.partial["concretise-limit"]++
		}
		p.trail = append(p.trail, Decision{K: 'c', V: v, T: true})
		p.pos++
		it.assertPC(eq)
		return v
	}
}

func valBig(t *Term, v int64) *big.Int {
	if v < 0 && t.lo != nil && t.lo.Sign() >= 0 && t.hi != nil && t.hi.BitLen() > 63 {
		return new(big.Int).SetUint64(uint64(v))
	}
	return big.NewInt(v)
}

// pin fixes t to one value without exploring the others; the path is marked
// partial.
func (it *Interp) pin(t *Term) int64 {
	if t.isConst() {
		return it.simp(t).(int64)
	}
	p := it.p
	p.partial["pinned"]++
	if p.pos < len(p.trail) {
		d := p.trail[p.pos]
		if d.K != 'c' {
			panic(engineErr{"trail mismatch: pin", ""})
		}
		p.pos++
		p.model = nil
		it.assertPC(it.ts.Eq(t, it.ts.Big(valBig(t, d.V))))
		return d.V
	}
	it.ensureModel()
	bv := p.model.Int(t)
	v := it.simp(it.ts.Big(bv)).(int64)
	p.trail = append(p.trail, Decision{K: 'c', V: v, T: true})
	p.pos++
	it.assertPC(it.ts.Eq(t, it.ts.Big(bv)))
	return v
}

// choose is an n-way non-deterministic choice.
func (it *Interp) choose(n int) int {
	if n <= 1 {
		return 0
	}
	p := it.p
	if p.pos < len(p.trail) {
		d := p.trail[p.pos]
		if d.K != 'n' {
			panic(engineErr{fmt.Sprintf("trail mismatch: expected choice, got %c", d.K), ""})
		}
		p.pos++
		return int(d.V)
	}
	for i := n - 1; i >= 1; i-- {
		alt := make([]Decision, len(p.trail), len(p.trail)+1)
		copy(alt, p.trail)
		alt = append(alt, Decision{K: 'n', V: int64(i)})
		it.w.addWork(alt, p.model)
	}
	p.trail = append(p.trail, Decision{K: 'n', V: 0})
	p.pos++
	return 0
}

// assume restricts the current path.
func (it *Interp) assume(v Value) {
	switch v := v.(type) {
	case bool:
		if !v {
			panic(pathEnd{"assume"})
		}
	case *Term:
		if d, known := it.ts.decide(v, it.p.bounds); known {
			if !d {
				panic(pathEnd{"assume"})
			}
			return
		}
		p := it.p
		if p.pos < len(p.trail) || p.model == nil {
			// replaying: feasibility was established when the trail was made,
			// or will be by the next query
			it.assertPC(v)
			p.model = nil
			if p.pos >= len(p.trail) {
				r, m := it.sat(nil)
				if r == Unsat {
					panic(pathEnd{"assume"})
				}
				if r == Sat {
					p.model = m
				}
			}
			return
		}
		if p.model.Bool(v) {
			it.assertPC(v)
			return
		}
		r, m := it.sat(v)
		switch r {
		case Unsat:
			panic(pathEnd{"assume"})
		case Unknown:
			p.partial["solver-unknown"]++
			panic(pathEnd{"bound:solver-unknown"})
		}
		it.assertPC(v)
		p.model = m
	}
}

// check decides an assertion: a violation is a satisfying assignment of the
// path condition and the negated assertion.
func (it *Interp) check(fr *Frame, v Value, msg string) {
	p := it.p
	p.asserts++
	switch v := v.(type) {
	case bool:
		if !v {
			it.violate(fr, nil, msg, "assert")
		}
		atomic.AddInt64(&it.e.assertsConc, 1)
	case *Term:
		if d, known := it.ts.decide(v, p.bounds); known {
			atomic.AddInt64(&it.e.assertsIval, 1)
			if !d {
				it.violate(fr, nil, msg, "assert")
			}
			it.confirm(it.ts.Not(v))
			return
		}
		r, m := it.sat(it.ts.Not(v))
		atomic.AddInt64(&it.e.assertsSolver, 1)
		switch r {
		case Sat:
			it.violateModel(fr, m, it.ts.Not(v), msg, "assert")
		case Unknown:
			p.partial["assert-unknown"]++
		}
		it.assertPC(v)
	default:
		it.unsupported(fr, "assert of %T", v)
	}
}

func (it *Interp) violate(fr *Frame, extra *Term, msg, kind string) {
	it.ensureModelFresh()
	it.violateModel(fr, it.p.model, extra, msg, kind)
}

func (it *Interp) ensureModelFresh() {
	p := it.p
	if p.model == nil {
		it.ensureModel()
	}
}

func (it *Interp) violateModel(fr *Frame, m *evaluator, extra *Term, msg, kind string) {
	p := it.p
	v := &Violation{Msg: msg, Kind: kind, Where: it.where(fr)}
	v.Inputs = it.inputVals(m)
	v.Sched = append([]int{}, p.schedule...)
	v.Trail = append([]Decision{}, p.trail...)
	v.Observed = append([]string{}, p.observed...)
	v.Labels = append([]string{}, p.labels...)
	v.Explored = p.explored
	p.viol = v
	panic(pathEnd{"violation"})
}

func (it *Interp) inputVals(m *evaluator) []InputVal {
	var out []InputVal
	for _, in := range it.p.inputs {
		iv := InputVal{Name: in.name, Kind: in.kind, V: in.v}
		if in.t != nil {
			if in.t.isBool() {
				iv.V = b2i(m.Bool(in.t))
			} else {
				iv.V = it.simp(it.ts.Big(m.Int(in.t))).(int64)
			}
		}
		out = append(out, iv)
	}
	return out
}

// newVar creates a fresh symbolic integer input.
func (it *Interp) newVar(name string, lo, hi *big.Int) *Term {
	p := it.p
	n := p.nvar[name]
	p.nvar[name] = n + 1
	if n > 0 {
		name = fmt.Sprintf("%s#%d", name, n)
	}
	return it.ts.Var(name, lo, hi)
}
