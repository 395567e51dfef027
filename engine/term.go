package main

// Symbolic terms. Integers are encoded over the mathematical integers (SMT
// sort Int); the wrap-around of Go's machine words is encoded explicitly with
// mod 2^k wherever the (path-sensitive) interval of the exact result does not
// prove that no overflow can happen. Linear combinations are kept in a
// canonical normal form and every term is hash-consed.

import (
	"fmt"
	"math/big"
	"sort"
	"strings"
)

type Op uint8

const (
	OpConst Op = iota
	OpVar
	OpLin  // sum coef*atom + c
	OpDiv  // floor(t / m), m > 0 constant
	OpMod  // t mod m (euclidean), m > 0 constant
	OpMul  // non linear product
	OpIte  // integer if-then-else
	OpBits // bit operation through int2bv; name = bvand/bvor/bvxor
	OpQuo  // truncated division with symbolic divisor
	OpRem  // truncated remainder with symbolic divisor
	// boolean terms
	OpTrue
	OpFalse
	OpBVar
	OpLe0 // lin <= 0
	OpEq0 // lin == 0
	OpNot
	OpAnd
	OpOr
)

type Term struct {
	id    int
	op    Op
	c     *big.Int // const value; lin constant; div/mod modulus; OpBits width
	args  []*Term
	coefs []*big.Int
	name  string
	lo    *big.Int // static interval (nil = unbounded)
	hi    *big.Int
	v1    *Term      // the only variable, if small (see support)
	nv    int8       // 0: not computed, 1: no variable, 2: one small variable, 3: other
	tab   *[4]uint64 // truth table over the values of v1 (offset from v1.lo)
}

func (t *Term) isBool() bool { return t.op >= OpTrue }
func (t *Term) isConst() bool {
	return t.op == OpConst
}

type TermStore struct {
	tab   map[string]*Term
	all   []*Term
	True  *Term
	False *Term
	zero  *Term
}

func newTermStore() *TermStore {
	ts := &TermStore{tab: map[string]*Term{}}
	ts.True = ts.mk(&Term{op: OpTrue})
	ts.False = ts.mk(&Term{op: OpFalse})
	ts.zero = ts.Int(0)
	return ts
}

func (ts *TermStore) key(t *Term) string {
	var b strings.Builder
	b.WriteByte(byte(t.op) + 'A')
	if t.c != nil {
		b.WriteString(t.c.Text(36))
	}
	b.WriteByte('|')
	b.WriteString(t.name)
	for i, a := range t.args {
		fmt.Fprintf(&b, ",%d", a.id)
		if t.coefs != nil {
			b.WriteByte('*')
			b.WriteString(t.coefs[i].Text(36))
		}
	}
	return b.String()
}

func (ts *TermStore) mk(t *Term) *Term {
	k := ts.key(t)
	if x, ok := ts.tab[k]; ok {
		return x
	}
	t.id = len(ts.all)
	ts.all = append(ts.all, t)
	ts.tab[k] = t
	if !t.isBool() {
		t.lo, t.hi = ts.interval(t, nil)
	}
	return t
}

func (ts *TermStore) Int(v int64) *Term { return ts.Big(big.NewInt(v)) }
func (ts *TermStore) Big(v *big.Int) *Term {
	return ts.mk(&Term{op: OpConst, c: v})
}
func (ts *TermStore) Bool(b bool) *Term {
	if b {
		return ts.True
	}
	return ts.False
}

// Var returns the integer variable with the given (unique) name and bounds.
func (ts *TermStore) Var(name string, lo, hi *big.Int) *Term {
	k := "VAR|" + name + "|" + lo.String() + "|" + hi.String()
	if x, ok := ts.tab[k]; ok {
		return x
	}
	t := &Term{op: OpVar, name: name, lo: lo, hi: hi, id: len(ts.all)}
	ts.all = append(ts.all, t)
	ts.tab[k] = t
	return t
}

func (ts *TermStore) BVar(name string) *Term {
	return ts.mk(&Term{op: OpBVar, name: name})
}

var (
	bigOne  = big.NewInt(1)
	bigZero = big.NewInt(0)
)

// ---- intervals ----

type iv struct{ lo, hi *big.Int }

type boundsMap map[*Term]iv

func (ts *TermStore) interval(t *Term, bm boundsMap) (lo, hi *big.Int) {
	if t.op == OpConst {
		return t.c, t.c
	}
	if bm == nil && t.lo != nil && t.hi != nil && t.op != OpLin {
		return t.lo, t.hi
	}
	switch t.op {
	case OpVar:
		lo, hi = t.lo, t.hi
	case OpLin:
		l, h := new(big.Int).Set(t.c), new(big.Int).Set(t.c)
		var tmp big.Int
		for i, a := range t.args {
			al, ah := ts.interval(a, bm)
			c := t.coefs[i]
			if c.Sign() < 0 {
				al, ah = ah, al
			}
			if l != nil {
				if al == nil {
					l = nil
				} else {
					l.Add(l, tmp.Mul(c, al))
				}
			}
			if h != nil {
				if ah == nil {
					h = nil
				} else {
					h.Add(h, tmp.Mul(c, ah))
				}
			}
		}
		lo, hi = l, h
		if bm != nil {
			form, mul, c0 := ts.linForm(t)
			if b, ok := bm[form]; ok && form != t {
				// t = mul*form + c0
				var l2, h2 *big.Int
				if b.lo != nil {
					l2 = new(big.Int).Mul(b.lo, mul)
					l2.Add(l2, c0)
				}
				if b.hi != nil {
					h2 = new(big.Int).Mul(b.hi, mul)
					h2.Add(h2, c0)
				}
				if mul.Sign() < 0 {
					l2, h2 = h2, l2
				}
				lo, hi = ivMeet(lo, hi, l2, h2)
			}
		}
	case OpDiv:
		al, ah := ts.interval(t.args[0], bm)
		if al != nil {
			lo = floorDiv(al, t.c)
		}
		if ah != nil {
			hi = floorDiv(ah, t.c)
		}
	case OpMod:
		lo, hi = bigZero, new(big.Int).Sub(t.c, bigOne)
		al, ah := ts.interval(t.args[0], bm)
		if al != nil && ah != nil {
			q1, q2 := floorDiv(al, t.c), floorDiv(ah, t.c)
			if q1.Cmp(q2) == 0 {
				off := new(big.Int).Mul(q1, t.c)
				lo = new(big.Int).Sub(al, off)
				hi = new(big.Int).Sub(ah, off)
			}
		}
	case OpMul:
		al, ah := ts.interval(t.args[0], bm)
		bl, bh := ts.interval(t.args[1], bm)
		if al != nil && ah != nil && bl != nil && bh != nil {
			for i, x := range []*big.Int{al, ah} {
				for j, y := range []*big.Int{bl, bh} {
					p := new(big.Int).Mul(x, y)
					if i == 0 && j == 0 {
						lo, hi = p, p
						continue
					}
					if p.Cmp(lo) < 0 {
						lo = p
					}
					if p.Cmp(hi) > 0 {
						hi = p
					}
				}
			}
		}
	case OpIte:
		al, ah := ts.interval(t.args[1], nil)
		bl, bh := ts.interval(t.args[2], nil)
		if al != nil && bl != nil {
			lo = bigMin(al, bl)
		}
		if ah != nil && bh != nil {
			hi = bigMax(ah, bh)
		}
	case OpBits:
		lo, hi = bigZero, new(big.Int).Sub(new(big.Int).Lsh(bigOne, uint(t.c.Int64())), bigOne)
		if t.name == "bvand" {
			for _, a := range t.args {
				_, h := ts.interval(a, bm)
				if h != nil && h.Sign() >= 0 && h.Cmp(hi) < 0 {
					hi = h
				}
			}
		}
	case OpQuo:
		al, ah := ts.interval(t.args[0], bm)
		if al != nil && ah != nil {
			m := bigMax(new(big.Int).Abs(al), new(big.Int).Abs(ah))
			lo, hi = new(big.Int).Neg(m), m
			if al.Sign() >= 0 {
				if bl, _ := ts.interval(t.args[1], bm); bl != nil && bl.Sign() >= 0 {
					lo = bigZero
				}
			}
		}
	case OpRem:
		al, ah := ts.interval(t.args[0], bm)
		if al != nil && ah != nil {
			m := bigMax(new(big.Int).Abs(al), new(big.Int).Abs(ah))
			lo, hi = new(big.Int).Neg(m), m
			if al.Sign() >= 0 {
				lo = bigZero
			}
		}
	}
	if bm != nil && t.op != OpLin {
		if b, ok := bm[t]; ok {
			lo, hi = ivMeet(lo, hi, b.lo, b.hi)
		}
	}
	return lo, hi
}

func ivMeet(lo, hi, l2, h2 *big.Int) (*big.Int, *big.Int) {
	if l2 != nil && (lo == nil || l2.Cmp(lo) > 0) {
		lo = l2
	}
	if h2 != nil && (hi == nil || h2.Cmp(hi) < 0) {
		hi = h2
	}
	return lo, hi
}

func bigMin(a, b *big.Int) *big.Int {
	if a.Cmp(b) < 0 {
		return a
	}
	return b
}
func bigMax(a, b *big.Int) *big.Int {
	if a.Cmp(b) > 0 {
		return a
	}
	return b
}

func floorDiv(a, m *big.Int) *big.Int { // m > 0
	q, r := new(big.Int), new(big.Int)
	q.DivMod(a, m, r) // euclidean; m>0 so floor
	return q
}
func eMod(a, m *big.Int) *big.Int { return new(big.Int).Mod(a, m) }

// linForm writes t = mul*form + c where form is the primitive linear part.
func (ts *TermStore) linForm(t *Term) (form *Term, mul, c *big.Int) {
	if t.op != OpLin {
		return t, bigOne, bigZero
	}
	if len(t.args) == 1 {
		return t.args[0], t.coefs[0], t.c
	}
	g := new(big.Int)
	for _, k := range t.coefs {
		g.GCD(nil, nil, g, new(big.Int).Abs(k))
	}
	if t.coefs[0].Sign() < 0 {
		g.Neg(g)
	}
	cs := make([]*big.Int, len(t.coefs))
	for i, k := range t.coefs {
		cs[i] = new(big.Int).Quo(k, g)
	}
	f := ts.mk(&Term{op: OpLin, c: bigZero, args: t.args, coefs: cs})
	return f, g, t.c
}

// ---- constructors: integers ----

type linAcc struct {
	m map[*Term]*big.Int
	c *big.Int
}

func newAcc() *linAcc { return &linAcc{m: map[*Term]*big.Int{}, c: new(big.Int)} }
func (a *linAcc) add(t *Term, k *big.Int) {
	switch t.op {
	case OpConst:
		a.c.Add(a.c, new(big.Int).Mul(t.c, k))
	case OpLin:
		a.c.Add(a.c, new(big.Int).Mul(t.c, k))
		for i, x := range t.args {
			a.addAtom(x, new(big.Int).Mul(t.coefs[i], k))
		}
	default:
		a.addAtom(t, k)
	}
}
func (a *linAcc) addAtom(t *Term, k *big.Int) {
	if o, ok := a.m[t]; ok {
		a.m[t] = new(big.Int).Add(o, k)
	} else {
		a.m[t] = k
	}
}

func (ts *TermStore) fromAcc(a *linAcc) *Term {
	atoms := make([]*Term, 0, len(a.m))
	for t, k := range a.m {
		if k.Sign() != 0 {
			atoms = append(atoms, t)
		}
	}
	if len(atoms) == 0 {
		return ts.Big(a.c)
	}
	sort.Slice(atoms, func(i, j int) bool { return atoms[i].id < atoms[j].id })
	if len(atoms) == 1 && a.c.Sign() == 0 && a.m[atoms[0]].Cmp(bigOne) == 0 {
		return atoms[0]
	}
	// x - m*(x div m) with matching coefficients => x mod m
	t := &Term{op: OpLin, c: a.c, args: atoms, coefs: make([]*big.Int, len(atoms))}
	for i, x := range atoms {
		t.coefs[i] = a.m[x]
	}
	return ts.mk(t)
}

func (ts *TermStore) Add(a, b *Term) *Term {
	acc := newAcc()
	acc.add(a, bigOne)
	acc.add(b, bigOne)
	return ts.fromAcc(acc)
}
func (ts *TermStore) Sub(a, b *Term) *Term {
	acc := newAcc()
	acc.add(a, bigOne)
	acc.add(b, big.NewInt(-1))
	return ts.fromAcc(acc)
}
func (ts *TermStore) MulC(a *Term, k *big.Int) *Term {
	acc := newAcc()
	acc.add(a, k)
	return ts.fromAcc(acc)
}
func (ts *TermStore) Neg(a *Term) *Term { return ts.MulC(a, big.NewInt(-1)) }
func (ts *TermStore) Mul(a, b *Term) *Term {
	if a.op == OpConst {
		return ts.MulC(b, a.c)
	}
	if b.op == OpConst {
		return ts.MulC(a, b.c)
	}
	if a.id > b.id {
		a, b = b, a
	}
	return ts.mk(&Term{op: OpMul, args: []*Term{a, b}})
}

// splitMod writes t = m*q + r where every coefficient of r is in [0,m) and
// the atoms of q,r come from t.
func (ts *TermStore) splitMod(t *Term, m *big.Int) (q, r *Term) {
	qa, ra := newAcc(), newAcc()
	put := func(x *Term, k *big.Int) {
		kq, kr := new(big.Int), new(big.Int)
		kq.QuoRem(k, m, kr) // truncated, keep sign
		if x == nil {
			kq, kr = new(big.Int).DivMod(k, m, kr)
			qa.c.Add(qa.c, kq)
			ra.c.Add(ra.c, kr)
			return
		}
		if kq.Sign() != 0 {
			qa.addAtom(x, kq)
		}
		if kr.Sign() != 0 {
			ra.addAtom(x, kr)
		}
	}
	switch t.op {
	case OpConst:
		put(nil, t.c)
	case OpLin:
		put(nil, t.c)
		for i, x := range t.args {
			put(x, t.coefs[i])
		}
	default:
		put(t, bigOne)
	}
	return ts.fromAcc(qa), ts.fromAcc(ra)
}

func (ts *TermStore) DivC(t *Term, m *big.Int, bm boundsMap) *Term {
	if m.Cmp(bigOne) == 0 {
		return t
	}
	if t.op == OpConst {
		return ts.Big(floorDiv(t.c, m))
	}
	q, r := ts.splitMod(t, m)
	lo, hi := ts.interval(r, bm)
	if lo != nil && hi != nil {
		a, b := floorDiv(lo, m), floorDiv(hi, m)
		if a.Cmp(b) == 0 {
			return ts.Add(q, ts.Big(a))
		}
	}
	if r.op == OpDiv { // (x div a) div m = x div (a*m)
		return ts.Add(q, ts.DivC(r.args[0], new(big.Int).Mul(r.c, m), bm))
	}
	if r.op == OpConst {
		return ts.Add(q, ts.Big(floorDiv(r.c, m)))
	}
	return ts.Add(q, ts.mk(&Term{op: OpDiv, c: m, args: []*Term{r}}))
}

func (ts *TermStore) ModC(t *Term, m *big.Int, bm boundsMap) *Term {
	if m.Cmp(bigOne) == 0 {
		return ts.zero
	}
	if t.op == OpConst {
		return ts.Big(eMod(t.c, m))
	}
	// t - m*(t div m), which cancels when the division simplifies.
	_, r := ts.splitMod(t, m)
	lo, hi := ts.interval(r, bm)
	if lo != nil && hi != nil {
		a, b := floorDiv(lo, m), floorDiv(hi, m)
		if a.Cmp(b) == 0 {
			return ts.Sub(r, ts.Big(new(big.Int).Mul(a, m)))
		}
	}
	if r.op == OpConst {
		return ts.Big(eMod(r.c, m))
	}
	if r.op == OpMod {
		var rem big.Int
		rem.Mod(r.c, m)
		if rem.Sign() == 0 { // (x mod km) mod m = x mod m
			return ts.ModC(r.args[0], m, bm)
		}
	}
	// drop inner "x mod (k*m)" atoms with unit coefficients: they are congruent to x
	if r.op == OpLin {
		changed := false
		acc := newAcc()
		acc.c.Set(r.c)
		for i, x := range r.args {
			if x.op == OpMod {
				var rem big.Int
				rem.Mod(x.c, m)
				if rem.Sign() == 0 {
					acc.add(x.args[0], r.coefs[i])
					changed = true
					continue
				}
			}
			acc.addAtom(x, r.coefs[i])
		}
		if changed {
			return ts.ModC(ts.fromAcc(acc), m, bm)
		}
	}
	return ts.mk(&Term{op: OpMod, c: m, args: []*Term{r}})
}

func (ts *TermStore) Ite(c, a, b *Term) *Term {
	if c.op == OpTrue {
		return a
	}
	if c.op == OpFalse {
		return b
	}
	if a == b {
		return a
	}
	if c.op == OpNot {
		return ts.Ite(c.args[0], b, a)
	}
	if a.isBool() {
		return ts.Or(ts.And(c, a), ts.And(ts.Not(c), b))
	}
	return ts.mk(&Term{op: OpIte, args: []*Term{c, a, b}})
}

// ---- booleans ----

func (ts *TermStore) Not(a *Term) *Term {
	switch a.op {
	case OpTrue:
		return ts.False
	case OpFalse:
		return ts.True
	case OpNot:
		return a.args[0]
	case OpLe0: // !(l<=0) == l>=1 == 1-l<=0
		return ts.le0(ts.Sub(ts.Int(1), a.args[0]))
	}
	return ts.mk(&Term{op: OpNot, args: []*Term{a}})
}

func (ts *TermStore) nary(op Op, unit, absorb *Term, xs []*Term) *Term {
	var out []*Term
	seen := map[*Term]bool{}
	var walk func(x *Term) bool
	walk = func(x *Term) bool {
		if x == unit {
			return true
		}
		if x == absorb {
			return false
		}
		if x.op == op {
			for _, y := range x.args {
				if !walk(y) {
					return false
				}
			}
			return true
		}
		if seen[x] {
			return true
		}
		if seen[ts.Not(x)] {
			return false
		}
		seen[x] = true
		out = append(out, x)
		return true
	}
	for _, x := range xs {
		if !walk(x) {
			return absorb
		}
	}
	if len(out) == 0 {
		return unit
	}
	if len(out) == 1 {
		return out[0]
	}
	sort.Slice(out, func(i, j int) bool { return out[i].id < out[j].id })
	return ts.mk(&Term{op: op, args: out})
}

func (ts *TermStore) And(xs ...*Term) *Term { return ts.nary(OpAnd, ts.True, ts.False, xs) }
func (ts *TermStore) Or(xs ...*Term) *Term  { return ts.nary(OpOr, ts.False, ts.True, xs) }

func (ts *TermStore) le0(l *Term) *Term {
	lo, hi := ts.interval(l, nil)
	if hi != nil && hi.Sign() <= 0 {
		return ts.True
	}
	if lo != nil && lo.Sign() > 0 {
		return ts.False
	}
	if l.op == OpConst {
		return ts.Bool(l.c.Sign() <= 0)
	}
	// normalise by gcd: k*f + c <= 0  (k>0)  <=>  f <= floor(-c/k)
	if l.op == OpLin {
		g := new(big.Int)
		for _, k := range l.coefs {
			g.GCD(nil, nil, g, new(big.Int).Abs(k))
		}
		if g.Cmp(bigOne) > 0 {
			cs := make([]*big.Int, len(l.coefs))
			acc := newAcc()
			for i, k := range l.coefs {
				cs[i] = new(big.Int).Quo(k, g)
				acc.addAtom(l.args[i], cs[i])
			}
			b := floorDiv(new(big.Int).Neg(l.c), g)
			acc.c = b.Neg(b)
			l = ts.fromAcc(acc)
		}
	}
	return ts.mk(&Term{op: OpLe0, args: []*Term{l}})
}

func (ts *TermStore) Le(a, b *Term) *Term { return ts.le0(ts.Sub(a, b)) }
func (ts *TermStore) Lt(a, b *Term) *Term {
	return ts.le0(ts.Add(ts.Sub(a, b), ts.Int(1)))
}

func (ts *TermStore) Eq(a, b *Term) *Term {
	if a.isBool() {
		if a == b {
			return ts.True
		}
		return ts.Or(ts.And(a, b), ts.And(ts.Not(a), ts.Not(b)))
	}
	l := ts.Sub(a, b)
	lo, hi := ts.interval(l, nil)
	if (lo != nil && lo.Sign() > 0) || (hi != nil && hi.Sign() < 0) {
		return ts.False
	}
	if l.op == OpConst {
		return ts.Bool(l.c.Sign() == 0)
	}
	if l.op == OpLin {
		g := new(big.Int)
		for _, k := range l.coefs {
			g.GCD(nil, nil, g, new(big.Int).Abs(k))
		}
		if new(big.Int).Mod(l.c, g).Sign() != 0 {
			return ts.False
		}
		if l.coefs[0].Sign() < 0 {
			g.Neg(g)
		}
		if g.Cmp(bigOne) != 0 {
			acc := newAcc()
			for i, k := range l.coefs {
				acc.addAtom(l.args[i], new(big.Int).Quo(k, g))
			}
			acc.c = new(big.Int).Quo(l.c, g)
			l = ts.fromAcc(acc)
		}
	}
	// ite(c, k1, k2) == k  with constant leaves
	if x, k, ok := asAtomPlusConst(l); ok && x.op == OpIte {
		if r := ts.eqIte(x, k); r != nil {
			return r
		}
	}
	return ts.mk(&Term{op: OpEq0, args: []*Term{l}})
}

func asAtomPlusConst(l *Term) (*Term, *big.Int, bool) {
	if l.op == OpLin {
		if len(l.args) == 1 && l.coefs[0].Cmp(bigOne) == 0 {
			return l.args[0], new(big.Int).Neg(l.c), true
		}
		return nil, nil, false
	}
	return l, bigZero, true
}

func (ts *TermStore) eqIte(x *Term, k *big.Int) *Term {
	leaf := func(y *Term) *Term {
		if y.op == OpConst {
			return ts.Bool(y.c.Cmp(k) == 0)
		}
		if y.op == OpIte {
			return ts.eqIte(y, k)
		}
		return nil
	}
	a, b := leaf(x.args[1]), leaf(x.args[2])
	if a == nil || b == nil {
		return nil
	}
	return ts.Or(ts.And(x.args[0], a), ts.And(ts.Not(x.args[0]), b))
}

// decide tries to settle a boolean term from intervals alone.
func (ts *TermStore) decide(c *Term, bm boundsMap) (val, known bool) {
	switch c.op {
	case OpTrue:
		return true, true
	case OpFalse:
		return false, true
	case OpLe0:
		lo, hi := ts.interval(c.args[0], bm)
		if hi != nil && hi.Sign() <= 0 {
			return true, true
		}
		if lo != nil && lo.Sign() > 0 {
			return false, true
		}
	case OpEq0:
		lo, hi := ts.interval(c.args[0], bm)
		if lo != nil && hi != nil && lo.Sign() == 0 && hi.Sign() == 0 {
			return true, true
		}
		if (lo != nil && lo.Sign() > 0) || (hi != nil && hi.Sign() < 0) {
			return false, true
		}
	case OpNot:
		v, k := ts.decide(c.args[0], bm)
		return !v, k
	case OpAnd:
		all := true
		for _, a := range c.args {
			v, k := ts.decide(a, bm)
			if k && !v {
				return false, true
			}
			if !k {
				all = false
			}
		}
		return true, all
	case OpOr:
		all := true
		for _, a := range c.args {
			v, k := ts.decide(a, bm)
			if k && v {
				return true, true
			}
			if !k {
				all = false
			}
		}
		return false, all
	}
	return false, false
}

// learn records the interval consequences of an asserted constraint.
func (ts *TermStore) learn(c *Term, bm boundsMap) {
	switch c.op {
	case OpAnd:
		for _, a := range c.args {
			ts.learn(a, bm)
		}
	case OpLe0:
		form, mul, k := ts.linForm(c.args[0])
		// mul*form + k <= 0
		b := bm[form]
		nk := new(big.Int).Neg(k)
		if mul.Sign() > 0 {
			_, b.hi = ivMeet(nil, b.hi, nil, floorDiv(nk, mul))
		} else {
			// form >= ceil(nk/mul) = -(floor(nk/|mul|))
			am := new(big.Int).Neg(mul)
			l := floorDiv(nk, am)
			b.lo, _ = ivMeet(b.lo, nil, l.Neg(l), nil)
		}
		bm[form] = b
	case OpEq0:
		form, mul, k := ts.linForm(c.args[0])
		nk := new(big.Int).Neg(k)
		q, r := new(big.Int).QuoRem(nk, mul, new(big.Int))
		if r.Sign() == 0 {
			b := bm[form]
			b.lo, b.hi = ivMeet(b.lo, b.hi, q, q)
			bm[form] = b
		}
	case OpNot:
		// not (x == k) at an interval end
		if a := c.args[0]; a.op == OpEq0 {
			form, mul, k := ts.linForm(a.args[0])
			nk := new(big.Int).Neg(k)
			q, r := new(big.Int).QuoRem(nk, mul, new(big.Int))
			if r.Sign() == 0 {
				lo, hi := ts.interval(form, bm)
				b := bm[form]
				if lo != nil && lo.Cmp(q) == 0 {
					b.lo, _ = ivMeet(b.lo, nil, new(big.Int).Add(q, bigOne), nil)
				}
				if hi != nil && hi.Cmp(q) == 0 {
					_, b.hi = ivMeet(nil, b.hi, nil, new(big.Int).Sub(q, bigOne))
				}
				bm[form] = b
			}
		} else if a.op == OpOr {
			for _, x := range a.args {
				ts.learn(ts.Not(x), bm)
			}
		}
	}
}

// ---- evaluation under a model ----

type Model map[*Term]*big.Int

type evaluator struct {
	m     Model
	memoI map[*Term]*big.Int
	memoB map[*Term]bool
}

func newEval(m Model) *evaluator {
	return &evaluator{m: m, memoI: map[*Term]*big.Int{}, memoB: map[*Term]bool{}}
}

func (e *evaluator) Int(t *Term) *big.Int {
	if t.op == OpConst {
		return t.c
	}
	if v, ok := e.memoI[t]; ok {
		return v
	}
	var r *big.Int
	switch t.op {
	case OpVar:
		if v, ok := e.m[t]; ok {
			r = v
		} else {
			r = t.lo
			if t.lo.Sign() <= 0 && t.hi.Sign() >= 0 {
				r = bigZero
			}
		}
	case OpLin:
		r = new(big.Int).Set(t.c)
		var tmp big.Int
		for i, a := range t.args {
			r.Add(r, tmp.Mul(t.coefs[i], e.Int(a)))
		}
	case OpDiv:
		r = floorDiv(e.Int(t.args[0]), t.c)
	case OpMod:
		r = eMod(e.Int(t.args[0]), t.c)
	case OpMul:
		r = new(big.Int).Mul(e.Int(t.args[0]), e.Int(t.args[1]))
	case OpIte:
		if e.Bool(t.args[0]) {
			r = e.Int(t.args[1])
		} else {
			r = e.Int(t.args[2])
		}
	case OpBits:
		w := uint(t.c.Int64())
		m := new(big.Int).Lsh(bigOne, w)
		a, b := eMod(e.Int(t.args[0]), m), eMod(e.Int(t.args[1]), m)
		switch t.name {
		case "bvand":
			r = new(big.Int).And(a, b)
		case "bvor":
			r = new(big.Int).Or(a, b)
		default:
			r = new(big.Int).Xor(a, b)
		}
	case OpQuo, OpRem:
		a, b := e.Int(t.args[0]), e.Int(t.args[1])
		if b.Sign() == 0 {
			r = bigZero
		} else if t.op == OpQuo {
			r = new(big.Int).Quo(a, b)
		} else {
			r = new(big.Int).Rem(a, b)
		}
	default:
		panic("eval int")
	}
	e.memoI[t] = r
	return r
}

func (e *evaluator) Bool(t *Term) bool {
	switch t.op {
	case OpTrue:
		return true
	case OpFalse:
		return false
	}
	if v, ok := e.memoB[t]; ok {
		return v
	}
	var r bool
	switch t.op {
	case OpBVar:
		v, ok := e.m[t]
		r = ok && v.Sign() != 0
	case OpLe0:
		r = e.Int(t.args[0]).Sign() <= 0
	case OpEq0:
		r = e.Int(t.args[0]).Sign() == 0
	case OpNot:
		r = !e.Bool(t.args[0])
	case OpAnd:
		r = true
		for _, a := range t.args {
			if !e.Bool(a) {
				r = false
				break
			}
		}
	case OpOr:
		for _, a := range t.args {
			if e.Bool(a) {
				r = true
				break
			}
		}
	default:
		panic("eval bool")
	}
	e.memoB[t] = r
	return r
}

// ---- SMT-LIB ----

func smtInt(v *big.Int) string {
	if v.Sign() < 0 {
		return "(- " + new(big.Int).Neg(v).String() + ")"
	}
	return v.String()
}

func ref(t *Term) string {
	switch t.op {
	case OpConst:
		return smtInt(t.c)
	case OpTrue:
		return "true"
	case OpFalse:
		return "false"
	case OpVar, OpBVar:
		return "v" + fmt.Sprint(t.id)
	}
	return "t" + fmt.Sprint(t.id)
}

// body renders the defining expression of a compound term.
func body(t *Term) string {
	var b strings.Builder
	switch t.op {
	case OpLin:
		b.WriteString("(+")
		for i, a := range t.args {
			if t.coefs[i].Cmp(bigOne) == 0 {
				b.WriteString(" " + ref(a))
			} else {
				fmt.Fprintf(&b, " (* %s %s)", smtInt(t.coefs[i]), ref(a))
			}
		}
		b.WriteString(" " + smtInt(t.c) + ")")
	case OpDiv:
		fmt.Fprintf(&b, "(div %s %s)", ref(t.args[0]), smtInt(t.c))
	case OpMod:
		fmt.Fprintf(&b, "(mod %s %s)", ref(t.args[0]), smtInt(t.c))
	case OpMul:
		fmt.Fprintf(&b, "(* %s %s)", ref(t.args[0]), ref(t.args[1]))
	case OpIte:
		fmt.Fprintf(&b, "(ite %s %s %s)", ref(t.args[0]), ref(t.args[1]), ref(t.args[2]))
	case OpBits:
		fmt.Fprintf(&b, "(bv2nat (%s ((_ int2bv %s) %s) ((_ int2bv %s) %s)))", t.name, t.c, ref(t.args[0]), t.c, ref(t.args[1]))
	case OpQuo:
		x, y := ref(t.args[0]), ref(t.args[1])
		fmt.Fprintf(&b, "(ite (>= %s 0) (div %s %s) (- (div (- %s) %s)))", x, x, y, x, y)
	case OpRem:
		x, y := ref(t.args[0]), ref(t.args[1])
		fmt.Fprintf(&b, "(ite (>= %s 0) (mod %s %s) (- (mod (- %s) %s)))", x, x, y, x, y)
	case OpLe0:
		fmt.Fprintf(&b, "(<= %s 0)", ref(t.args[0]))
	case OpEq0:
		fmt.Fprintf(&b, "(= %s 0)", ref(t.args[0]))
	case OpNot:
		fmt.Fprintf(&b, "(not %s)", ref(t.args[0]))
	case OpAnd, OpOr:
		if t.op == OpAnd {
			b.WriteString("(and")
		} else {
			b.WriteString("(or")
		}
		for _, a := range t.args {
			b.WriteString(" " + ref(a))
		}
		b.WriteString(")")
	}
	return b.String()
}
