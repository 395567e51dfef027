package main

import (
	"fmt"
	"go/token"
	"go/types"
	"runtime/debug"
	"sort"

	"golang.org/x/tools/go/ssa"
)

// Interpreted goroutines run on host goroutines but exactly one holds the
// baton at any time; all scheduling decisions are part of the decision trail.

type G struct {
	id      int
	wake    chan struct{}
	done    bool
	blocked string
	clk     vclock
	exited  chan struct{}
	name    string
	selIdx  int
	selVal  Value
	selOk   bool
	fired   bool
	dead    bool
	fr      *Frame
	quiet   bool
}

type vclock []int32

func (v vclock) get(i int) int32 {
	if i < len(v) {
		return v[i]
	}
	return 0
}
func joinClk(a, b vclock) vclock {
	if len(b) > len(a) {
		n := make(vclock, len(b))
		copy(n, a)
		a = n
	} else {
		a = append(vclock{}, a...)
	}
	for i, x := range b {
		if x > a[i] {
			a[i] = x
		}
	}
	return a
}

func (it *Interp) tick(g *G) {
	for len(g.clk) <= g.id {
		g.clk = append(g.clk, 0)
	}
	g.clk[g.id]++
}

// release publishes the clock of the running goroutine into *c.
func (it *Interp) release(c *vclock) {
	if it.p.race == nil {
		return
	}
	g := it.p.cur
	*c = joinClk(*c, g.clk)
	g.clk = append(vclock{}, g.clk...)
	it.tick(g)
}
func (it *Interp) acquire(c vclock) {
	if it.p.race == nil {
		return
	}
	g := it.p.cur
	g.clk = joinClk(g.clk, c)
}

type timer struct {
	when   Value
	g      *G
	f      func()
	active bool
	seq    int
}

func (it *Interp) newG(name string) *G {
	p := it.p
	g := &G{id: p.nextG, wake: make(chan struct{}, 1), exited: make(chan struct{}), name: name}
	p.nextG++
	p.gs = append(p.gs, g)
	return g
}

// startPath runs body as the main goroutine and returns when the path ended
// and every host goroutine of the path is gone.
func (it *Interp) runPath(body func()) pathResult {
	p := it.p
	p.endCh = make(chan pathResult, 1)
	g := it.newG("main")
	p.cur = g
	it.tick(g)
	go it.gMain(g, func() { body() }, true)
	res := <-p.endCh
	p.killed = true
	for _, g := range p.gs {
		select {
		case g.wake <- struct{}{}:
		default:
		}
		<-g.exited
	}
	return res
}

func (it *Interp) endPath(r pathResult) {
	p := it.p
	if !p.ended {
		p.ended = true
		p.endCh <- r
	}
}

type killG struct{}

func (it *Interp) gMain(g *G, body func(), main bool) {
	p := it.p
	defer close(g.exited)
	defer func() {
		if r := recover(); r != nil {
			g.done = true
			switch r := r.(type) {
			case killG:
				return
			case pathEnd:
				it.endPath(pathResult{kind: "end", msg: r.why})
			case engineErr:
				it.endPath(pathResult{kind: "error", msg: r.msg, where: r.where})
			case targetPanic:
				it.endPath(it.panicResult(r, g))
			default:
				it.endPath(pathResult{kind: "error", msg: fmt.Sprint("internal: ", r), where: it.where(g.fr) + string(debug.Stack())})
			}
		}
	}()
	if !main {
		it.park(g)
	}
	body()
	g.done = true
	if main {
		it.endPath(pathResult{kind: "ok"})
		return
	}
	it.release(&p.race.orDummy().exitClk)
	it.dispatch(nil)
}

func (it *Interp) panicResult(tp targetPanic, g *G) (res pathResult) {
	defer func() {
		if r := recover(); r != nil {
			if pe, ok := r.(pathEnd); ok {
				res = pathResult{kind: "end", msg: pe.why}
				return
			}
			if ee, ok := r.(engineErr); ok {
				res = pathResult{kind: "error", msg: ee.msg, where: ee.where}
				return
			}
			panic(r)
		}
	}()
	msg := "panic: " + it.panicText(tp.v)
	it.ensureModelFresh()
	v := &Violation{Msg: msg, Kind: "panic", Where: tp.where, Inputs: it.inputVals(it.p.model),
		Sched: append([]int{}, it.p.schedule...), Trail: append([]Decision{}, it.p.trail...),
		Observed: append([]string{}, it.p.observed...), Labels: append([]string{}, it.p.labels...), Explored: it.p.explored}
	it.p.viol = v
	return pathResult{kind: "end", msg: "violation", where: tp.where}
}

func (it *Interp) panicText(v Iface) string {
	switch x := v.v.(type) {
	case string:
		return x
	case *SStr:
		return x.show()
	}
	if v.t != nil {
		return v.t.String() + " " + showVal(v.v)
	}
	return showVal(v)
}

// park waits until the goroutine holds the baton.
func (it *Interp) park(g *G) {
	<-g.wake
	if it.p.killed {
		panic(killG{})
	}
}

func (it *Interp) spawn(fr *Frame, f Value, args []Value) {
	p := it.p
	it.schedPoint(fr, "go")
	if len(p.gs) > it.e.maxGs {
		panic(pathEnd{"bound:goroutines"})
	}
	g := it.newG(showVal(f))
	it.tick(g)
	if p.race != nil {
		g.clk = joinClk(g.clk, p.cur.clk)
		it.tick(p.cur)
	}
	go it.gMain(g, func() { it.callValue(nil, f, args) }, false)
	p.runq = append(p.runq, g)
}

// dispatch hands the baton to another goroutine. self is nil when the current
// goroutine is finished.
func (it *Interp) dispatch(self *G) {
	p := it.p
	for len(p.runq) == 0 {
		if !it.fireTimer() {
			// nothing can run
			it.deadlock()
			if self != nil {
				panic(killG{})
			}
			return
		}
	}
	cand := it.candidates()
	i := cand[0]
	if p.explore && len(cand) > 1 {
		i = cand[it.choose(len(cand))]
	}
	g := p.runq[i]
	p.runq = append(append([]*G{}, p.runq[:i]...), p.runq[i+1:]...)
	p.cur = g
	p.schedule = append(p.schedule, g.id)
	if g == self {
		return
	}
	g.wake <- struct{}{}
	if self != nil {
		it.park(self)
	}
}

// candidates returns the indices of the goroutines that may run next; those
// waiting for quiescence run only when nothing else can.
func (it *Interp) candidates() []int {
	p := it.p
	var c []int
	for i, g := range p.runq {
		if !g.quiet {
			c = append(c, i)
		}
	}
	if len(c) == 0 {
		for i := range p.runq {
			c = append(c, i)
		}
	}
	return c
}

// block parks the current goroutine until it is made ready.
func (it *Interp) block(fr *Frame, why string) {
	p := it.p
	g := p.cur
	g.blocked = why
	g.fr = fr
	it.dispatch(g)
	g.blocked = ""
}

func (it *Interp) ready(g *G) {
	if g.dead || g.done {
		return
	}
	for _, x := range it.p.runq {
		if x == g {
			return
		}
	}
	it.p.runq = append(it.p.runq, g)
}

func (it *Interp) deadlock() {
	p := it.p
	var who []string
	for _, g := range p.gs {
		if !g.done {
			who = append(who, fmt.Sprintf("g%d(%s): %s at %s", g.id, g.name, g.blocked, it.where(g.fr)))
		}
	}
	sort.Strings(who)
	msg := "deadlock: all goroutines are blocked"
	func() {
		defer func() { recover() }()
		it.ensureModelFresh()
	}()
	if p.model == nil {
		it.endPath(pathResult{kind: "end", msg: "infeasible"})
		return
	}
	p.viol = &Violation{Msg: msg, Kind: "deadlock", Where: fmt.Sprint(who), Inputs: it.inputVals(p.model),
		Sched: append([]int{}, p.schedule...), Trail: append([]Decision{}, p.trail...),
		Observed: append([]string{}, p.observed...), Labels: append([]string{}, p.labels...), Explored: p.explored}
	it.endPath(pathResult{kind: "end", msg: "violation"})
}

// schedPoint is called before every synchronisation operation.
func (it *Interp) schedPoint(fr *Frame, what string) {
	p := it.p
	if !p.explore || len(p.runq) == 0 || p.preempt <= 0 || it.initing > 0 || it.noPreempt > 0 {
		return
	}
	cand := it.candidates()
	if p.runq[cand[0]].quiet {
		return
	}
	c := it.choose(len(cand) + 1)
	if c == 0 {
		return
	}
	p.preempt--
	c = cand[c-1] + 1
	g := p.runq[c-1]
	self := p.cur
	p.runq = append(append([]*G{}, p.runq[:c-1]...), p.runq[c:]...)
	p.runq = append(p.runq, self)
	p.cur = g
	p.schedule = append(p.schedule, g.id)
	self.fr = fr
	g.wake <- struct{}{}
	it.park(self)
}

// yield lets every other runnable goroutine run until it blocks.
func (it *Interp) yield(fr *Frame) {
	p := it.p
	if len(p.runq) == 0 {
		return
	}
	p.runq = append(p.runq, p.cur)
	it.block(fr, "yield")
}

// ---- virtual time ----

func (it *Interp) addDur(now, d Value) Value {
	a, ok1 := now.(int64)
	b, ok2 := d.(int64)
	if ok1 && ok2 {
		return a + b
	}
	return it.simp(it.ts.Add(it.toTerm(now, ikind{64, true}), it.toTerm(d, ikind{64, true})))
}

func (it *Interp) less(a, b Value) bool {
	x, ok1 := a.(int64)
	y, ok2 := b.(int64)
	if ok1 && ok2 {
		return x < y
	}
	k := ikind{64, true}
	return it.truth(it.simp(it.ts.Lt(it.toTerm(a, k), it.toTerm(b, k))))
}

func (it *Interp) addTimer(d Value, g *G, f func()) *timer {
	p := it.p
	t := &timer{when: it.addDur(p.now, d), g: g, f: f, active: true, seq: len(p.timers)}
	p.timers = append(p.timers, t)
	return t
}

// fireTimer advances the clock to the earliest active timer.
func (it *Interp) fireTimer() bool {
	p := it.p
	var best *timer
	for _, t := range p.timers {
		if !t.active {
			continue
		}
		if best == nil || it.less(t.when, best.when) {
			best = t
		}
	}
	if best == nil {
		return false
	}
	best.active = false
	if it.less(p.now, best.when) {
		p.now = best.when
	}
	if best.g != nil {
		it.ready(best.g)
	}
	if best.f != nil {
		best.f()
	}
	return true
}

func (it *Interp) sleep(fr *Frame, d Value) {
	it.schedPoint(fr, "sleep")
	if !it.less(int64(0), d) {
		it.yield(fr)
		return
	}
	it.addTimer(d, it.p.cur, nil)
	it.block(fr, "sleep")
}

// ---- mutexes ----

type mutexSt struct {
	locked  bool
	readers int
	wwait   int
	waiters []*G
	clk     vclock
	rclk    vclock
	owner   *G
}

func (it *Interp) mutex(p *Value) *mutexSt {
	m := it.p.mutexes[p]
	if m == nil {
		m = &mutexSt{}
		it.p.mutexes[p] = m
	}
	return m
}

func (it *Interp) wakeAll(m *mutexSt) {
	for _, g := range m.waiters {
		it.ready(g)
	}
	m.waiters = nil
}

func (it *Interp) lock(fr *Frame, p *Value) {
	m := it.mutex(p)
	it.schedPoint(fr, "lock")
	for m.locked || m.readers > 0 {
		m.waiters = append(m.waiters, it.p.cur)
		m.wwait++
		it.block(fr, "mutex lock")
		m.wwait--
	}
	m.locked = true
	m.owner = it.p.cur
	it.acquire(m.clk)
	it.acquire(m.rclk)
}

func (it *Interp) tryLock(fr *Frame, p *Value) bool {
	m := it.mutex(p)
	it.schedPoint(fr, "trylock")
	if m.locked || m.readers > 0 {
		return false
	}
	m.locked = true
	it.acquire(m.clk)
	it.acquire(m.rclk)
	return true
}

func (it *Interp) unlock(fr *Frame, p *Value) {
	m := it.mutex(p)
	if !m.locked {
		it.fatal(fr, "fatal error: sync: unlock of unlocked mutex")
	}
	it.release(&m.clk)
	m.locked = false
	m.owner = nil
	it.wakeAll(m)
	it.schedPoint(fr, "unlock")
}

func (it *Interp) fatal(fr *Frame, msg string) {
	it.violate(fr, nil, msg, "fatal")
}

func (it *Interp) rlock(fr *Frame, p *Value) {
	m := it.mutex(p)
	it.schedPoint(fr, "rlock")
	for m.locked || m.wwait > 0 {
		m.waiters = append(m.waiters, it.p.cur)
		it.block(fr, "rwmutex rlock")
		if !m.locked {
			break
		}
	}
	m.readers++
	it.acquire(m.clk)
}

func (it *Interp) runlock(fr *Frame, p *Value) {
	m := it.mutex(p)
	if m.readers == 0 {
		it.fatal(fr, "fatal error: sync: RUnlock of unlocked RWMutex")
	}
	it.release(&m.rclk)
	m.readers--
	if m.readers == 0 {
		it.wakeAll(m)
	}
	it.schedPoint(fr, "runlock")
}

type condSt struct {
	waiters []*G
	clk     vclock
}
type wgSt struct {
	n       int64
	waiters []*G
	clk     vclock
}
type poolSt struct{ items []poolItem }
type poolItem struct {
	v   Value
	clk vclock
}
type onceSt struct {
	done    bool
	running bool
	waiters []*G
	clk     vclock
}
type atomSt struct {
	v   Value
	clk vclock
}

func (it *Interp) onceDo(fr *Frame, p *Value, f Value) {
	o := it.p.onces[p]
	if o == nil {
		o = &onceSt{}
		it.p.onces[p] = o
	}
	it.schedPoint(fr, "once")
	for o.running && !o.done {
		o.waiters = append(o.waiters, it.p.cur)
		it.block(fr, "once")
	}
	if o.done {
		it.acquire(o.clk)
		return
	}
	o.running = true
	fin := func() {
		o.done = true
		o.running = false
		it.release(&o.clk)
		for _, g := range o.waiters {
			it.ready(g)
		}
		o.waiters = nil
	}
	func() {
		defer func() {
			if r := recover(); r != nil {
				if _, ok := r.(targetPanic); ok {
					fin()
				}
				panic(r)
			}
		}()
		it.callValue(fr, f, nil)
	}()
	fin()
}

// ---- channels ----

type waiter struct {
	g    *G
	val  Value
	clk  vclock
	idx  int // select case
	send bool
	dead *bool // shared by all cases of one select
}

func (it *Interp) popWaiter(q *[]*waiter) *waiter {
	for len(*q) > 0 {
		w := (*q)[0]
		*q = (*q)[1:]
		if !*w.dead {
			return w
		}
	}
	return nil
}

func hasWaiter(q []*waiter) bool {
	for _, w := range q {
		if !*w.dead {
			return true
		}
	}
	return false
}

func (it *Interp) fire(w *waiter, v Value, ok bool) {
	*w.dead = true
	w.g.fired = true
	w.g.selIdx = w.idx
	w.g.selVal = v
	w.g.selOk = ok
	it.ready(w.g)
}

// trySend performs a send if it can proceed.
func (it *Interp) trySend(fr *Frame, c *ChanV, v Value) bool {
	if c.closed {
		panic(targetPanic{it.rtErrorPlain("send on closed channel"), it.where(fr)})
	}
	if w := it.popWaiter(&c.recvq); w != nil {
		if it.p.race != nil {
			var clk vclock
			it.release(&clk)
			w.g.clk = joinClk(w.g.clk, clk)
			it.acquire(w.clk)
		}
		it.fire(w, copyVal(v), true)
		return true
	}
	if len(c.buf) < c.cap {
		m := chanMsg{v: copyVal(v)}
		it.release(&m.clk)
		it.acquire(c.clkRcv)
		c.buf = append(c.buf, m)
		return true
	}
	return false
}

func (it *Interp) tryRecv(fr *Frame, c *ChanV) (v Value, ok, done bool) {
	if len(c.buf) > 0 {
		m := c.buf[0]
		c.buf = c.buf[1:]
		it.acquire(m.clk)
		it.release(&c.clkRcv)
		if w := it.popWaiter(&c.sendq); w != nil {
			c.buf = append(c.buf, chanMsg{w.val, w.clk})
			it.fire(w, nil, true)
		}
		return m.v, true, true
	}
	if w := it.popWaiter(&c.sendq); w != nil {
		it.acquire(w.clk)
		if it.p.race != nil {
			var clk vclock
			it.release(&clk)
			w.g.clk = joinClk(w.g.clk, clk)
		}
		v := w.val
		it.fire(w, nil, true)
		return v, true, true
	}
	if c.closed {
		it.acquire(c.clk)
		return nil, false, true
	}
	return nil, false, false
}

func (it *Interp) myClk() vclock {
	if it.p.race == nil {
		return nil
	}
	var c vclock
	it.release(&c)
	return c
}

func (it *Interp) chanSend(fr *Frame, c *ChanV, v Value) {
	it.schedPoint(fr, "send")
	if c == nil {
		it.block(fr, "send on nil channel")
		it.unsupported(fr, "resumed from nil channel")
	}
	if it.trySend(fr, c, v) {
		return
	}
	dead := false
	g := it.p.cur
	g.fired = false
	c.sendq = append(c.sendq, &waiter{g: g, val: copyVal(v), send: true, dead: &dead, clk: it.myClk()})
	for !g.fired {
		it.block(fr, "chan send")
	}
	if !g.selOk {
		panic(targetPanic{it.rtErrorPlain("send on closed channel"), it.where(fr)})
	}
}

func (it *Interp) chanRecv(fr *Frame, cv Value, commaOk bool, t types.Type) Value {
	c, ok := cv.(*ChanV)
	if !ok {
		it.unsupported(fr, "receive from %T", cv)
	}
	it.schedPoint(fr, "recv")
	if c == nil {
		it.block(fr, "receive from nil channel")
		it.unsupported(fr, "resumed from nil channel")
	}
	elem := t.Underlying().(*types.Chan).Elem()
	v, got, done := it.tryRecv(fr, c)
	if !done {
		dead := false
		g := it.p.cur
		g.fired = false
		c.recvq = append(c.recvq, &waiter{g: g, dead: &dead, clk: it.myClk()})
		for !g.fired {
			it.block(fr, "chan receive")
		}
		v, got = g.selVal, g.selOk
		if !got {
			it.acquire(c.clk)
		}
	}
	if !got {
		v = zero(elem)
	}
	if commaOk {
		return Tuple{v, got}
	}
	return v
}

func (it *Interp) chanClose(fr *Frame, cv Value) {
	c, _ := cv.(*ChanV)
	it.schedPoint(fr, "close")
	if c == nil {
		panic(targetPanic{it.rtErrorPlain("close of nil channel"), it.where(fr)})
	}
	if c.closed {
		panic(targetPanic{it.rtErrorPlain("close of closed channel"), it.where(fr)})
	}
	c.closed = true
	it.release(&c.clk)
	for {
		w := it.popWaiter(&c.recvq)
		if w == nil {
			break
		}
		it.fire(w, nil, false)
	}
	for {
		w := it.popWaiter(&c.sendq)
		if w == nil {
			break
		}
		it.fire(w, nil, false)
	}
}

func (it *Interp) selectOp(fr *Frame, ci *cinstr) Value {
	in := ci.in.(*ssa.Select)
	it.schedPoint(fr, "select")
	n := len(in.States)
	res := func(idx int, v Value, ok bool) Value {
		t := Tuple{int64(idx), ok}
		for i, st := range in.States {
			if st.Dir == types.RecvOnly {
				elem := st.Chan.Type().Underlying().(*types.Chan).Elem()
				if i == idx && ok {
					t = append(t, v)
				} else {
					t = append(t, zero(elem))
				}
			}
		}
		return t
	}
	var readyIdx []int
	for i, st := range in.States {
		c, _ := fr.get(&ci.ops[2*i]).(*ChanV)
		if c == nil {
			continue
		}
		if st.Dir == types.SendOnly {
			if c.closed || hasWaiter(c.recvq) || len(c.buf) < c.cap {
				readyIdx = append(readyIdx, i)
			}
		} else if len(c.buf) > 0 || hasWaiter(c.sendq) || c.closed {
			readyIdx = append(readyIdx, i)
		}
	}
	if len(readyIdx) > 0 {
		k := 0
		if len(readyIdx) > 1 && (it.p.explore || it.e.selectAll) {
			k = it.choose(len(readyIdx))
		}
		i := readyIdx[k]
		c := fr.get(&ci.ops[2*i]).(*ChanV)
		if in.States[i].Dir == types.SendOnly {
			it.trySend(fr, c, fr.get(&ci.ops[2*i+1]))
			return res(i, nil, false)
		}
		v, ok, _ := it.tryRecv(fr, c)
		return res(i, v, ok)
	}
	if !in.Blocking {
		return res(-1, nil, false)
	}
	g := it.p.cur
	dead := false
	g.fired = false
	for i := 0; i < n; i++ {
		c, _ := fr.get(&ci.ops[2*i]).(*ChanV)
		if c == nil {
			continue
		}
		w := &waiter{g: g, idx: i, dead: &dead, clk: it.myClk()}
		if in.States[i].Dir == types.SendOnly {
			w.send = true
			w.val = copyVal(fr.get(&ci.ops[2*i+1]))
			c.sendq = append(c.sendq, w)
		} else {
			c.recvq = append(c.recvq, w)
		}
	}
	for !g.fired {
		it.block(fr, "select")
	}
	i := g.selIdx
	if in.States[i].Dir == types.SendOnly {
		if !g.selOk {
			panic(targetPanic{it.rtErrorPlain("send on closed channel"), it.where(fr)})
		}
		return res(i, nil, false)
	}
	if !g.selOk {
		it.acquire(fr.get(&ci.ops[2*i]).(*ChanV).clk)
	}
	return res(i, g.selVal, g.selOk)
}

// ---- data races ----

// raceState implements happens-before race detection with vector clocks.
type raceState struct {
	cells   map[*Value]*shadow
	exitClk vclock
}

var dummyRace raceState

func (r *raceState) orDummy() *raceState {
	if r == nil {
		return &raceState{}
	}
	return r
}

type shadow struct {
	wg       int
	wc       int32
	wpos     token.Pos
	rg       []int
	rc       []int32
	rpos     token.Pos
	wfn, rfn string
}

func (r *raceState) access(it *Interp, fr *Frame, p *Value, write bool) {
	if it.initing > 0 || it.p.nextG < 2 {
		return
	}
	s := r.cells[p]
	if s == nil {
		s = &shadow{wg: -1}
		r.cells[p] = s
	}
	r.check(it, fr, s, write)
}

func (r *raceState) accessMap(it *Interp, fr *Frame, m *MapV, write bool) {
	if it.initing > 0 || it.p.nextG < 2 {
		return
	}
	if m.shad == nil {
		m.shad = &shadow{wg: -1}
	}
	r.check(it, fr, m.shad, write)
}

func (r *raceState) check(it *Interp, fr *Frame, s *shadow, write bool) {
	g := it.p.cur
	if fr != nil && it.e.raceIgnore(fr.c.pkgPath) {
		return
	}
	if s.wg >= 0 && s.wg != g.id && g.clk.get(s.wg) < s.wc {
		it.violate(fr, nil, fmt.Sprintf("data race: %s of memory written by g%d in %s", rw(write), s.wg, s.wfn), "race")
	}
	if write {
		for i, rg := range s.rg {
			if rg != g.id && g.clk.get(rg) < s.rc[i] {
				it.violate(fr, nil, fmt.Sprintf("data race: write of memory read by g%d in %s", rg, s.rfn), "race")
			}
		}
		s.wg, s.wc = g.id, g.clk.get(g.id)
		if fr != nil {
			s.wfn = fr.c.fullName
		}
		s.rg, s.rc = s.rg[:0], s.rc[:0]
		return
	}
	for i, rg := range s.rg {
		if rg == g.id {
			s.rc[i] = g.clk.get(g.id)
			return
		}
	}
	s.rg = append(s.rg, g.id)
	s.rc = append(s.rc, g.clk.get(g.id))
	if fr != nil {
		s.rfn = fr.c.fullName
	}
}

func rw(w bool) string {
	if w {
		return "write"
	}
	return "read"
}
