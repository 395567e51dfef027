package main

import (
	"fmt"
	"go/token"
	"go/types"
	"math"
	"math/big"
	"math/bits"

	"golang.org/x/tools/go/ssa"
)

func (it *Interp) toTerm(v Value, k ikind) *Term {
	switch v := v.(type) {
	case *Term:
		return v
	case int64:
		if !k.signed && k.bits == 64 && v < 0 {
			return it.ts.Big(new(big.Int).SetUint64(uint64(v)))
		}
		return it.ts.Int(v)
	case bool:
		return it.ts.Bool(v)
	}
	panic(engineErr{fmt.Sprintf("term of %T", v), ""})
}

// wrap reduces the exact result t to the range of kind k.
func (it *Interp) wrap(t *Term, k ikind) Value {
	lo, hi := k.bounds()
	tl, th := it.ts.interval(t, it.p.bounds)
	if tl != nil && th != nil && tl.Cmp(lo) >= 0 && th.Cmp(hi) <= 0 {
		return it.simp(t)
	}
	m := new(big.Int).Lsh(bigOne, uint(k.bits))
	if !k.signed {
		return it.simp(it.ts.ModC(t, m, it.p.bounds))
	}
	// settle by the solver whether it can overflow at all: keeps terms linear
	in := it.ts.And(it.ts.Le(it.ts.Big(lo), t), it.ts.Le(t, it.ts.Big(hi)))
	if it.branch(in) {
		return it.simp(t)
	}
	half := new(big.Int).Lsh(bigOne, uint(k.bits-1))
	r := it.ts.ModC(it.ts.Add(t, it.ts.Big(half)), m, it.p.bounds)
	return it.simp(it.ts.Sub(r, it.ts.Big(half)))
}

func (it *Interp) intOp(fr *Frame, op token.Token, a, b int64, k, k2 ikind) Value {
	uns := !k.signed
	switch op {
	case token.ADD:
		return k.norm(a + b)
	case token.SUB:
		return k.norm(a - b)
	case token.MUL:
		return k.norm(a * b)
	case token.QUO:
		if b == 0 {
			it.rtPanic(fr, "integer divide by zero")
		}
		if uns {
			return k.norm(int64(uint64(a) / uint64(b)))
		}
		if b == -1 {
			return k.norm(-a)
		}
		return k.norm(a / b)
	case token.REM:
		if b == 0 {
			it.rtPanic(fr, "integer divide by zero")
		}
		if uns {
			return k.norm(int64(uint64(a) % uint64(b)))
		}
		if b == -1 {
			return int64(0)
		}
		return k.norm(a % b)
	case token.AND:
		return k.norm(a & b)
	case token.OR:
		return k.norm(a | b)
	case token.XOR:
		return k.norm(a ^ b)
	case token.AND_NOT:
		return k.norm(a &^ b)
	case token.SHL, token.SHR:
		var sh uint64 = uint64(b)
		if k2.signed && b < 0 {
			it.rtPanic(fr, "negative shift amount")
		}
		if op == token.SHL {
			if sh >= 64 {
				return int64(0)
			}
			return k.norm(a << sh)
		}
		if uns {
			if sh >= 64 {
				return int64(0)
			}
			return k.norm(int64(uint64(a) >> sh))
		}
		if sh >= 64 {
			sh = 63
		}
		return k.norm(a >> sh)
	case token.EQL:
		return a == b
	case token.NEQ:
		return a != b
	case token.LSS:
		if uns {
			return uint64(a) < uint64(b)
		}
		return a < b
	case token.LEQ:
		if uns {
			return uint64(a) <= uint64(b)
		}
		return a <= b
	case token.GTR:
		if uns {
			return uint64(a) > uint64(b)
		}
		return a > b
	case token.GEQ:
		if uns {
			return uint64(a) >= uint64(b)
		}
		return a >= b
	}
	it.unsupported(fr, "int op %s", op)
	return nil
}

func (it *Interp) not(v Value) Value {
	switch v := v.(type) {
	case bool:
		return !v
	case *Term:
		return it.simp(it.ts.Not(v))
	}
	panic(engineErr{fmt.Sprintf("not of %T", v), ""})
}

func (it *Interp) unop(fr *Frame, ci *cinstr) Value {
	in := ci.in.(*ssa.UnOp)
	x := fr.get(&ci.ops[0])
	switch in.Op {
	case token.MUL:
		return it.load(fr, it.ptr(fr, x))
	case token.NOT:
		return it.not(x)
	case token.SUB:
		switch x := x.(type) {
		case int64:
			return ci.ik.norm(-x)
		case float64:
			return -x
		case *Term:
			return it.wrap(it.ts.Neg(x), ci.ik)
		case *FInt:
			return &FInt{it.ts.Neg(x.t)}
		}
	case token.XOR:
		switch x := x.(type) {
		case int64:
			return ci.ik.norm(^x)
		case *Term:
			if ci.ik.signed {
				return it.simp(it.ts.Sub(it.ts.Int(-1), x))
			}
			_, hi := ci.ik.bounds()
			return it.simp(it.ts.Sub(it.ts.Big(hi), x))
		}
	case token.ARROW:
		return it.chanRecv(fr, x, in.CommaOk, in.X.Type())
	}
	it.unsupported(fr, "unop %s on %T", in.Op, x)
	return nil
}

// maskAnd computes t & m for a constant non-negative mask.
func (it *Interp) maskAnd(t *Term, m *big.Int) *Term {
	ts := it.ts
	res := ts.zero
	n := m.BitLen()
	for i := 0; i < n; {
		if m.Bit(i) == 0 {
			i++
			continue
		}
		j := i
		for j < n && m.Bit(j) == 1 {
			j++
		}
		x := t
		if i > 0 {
			x = ts.DivC(x, new(big.Int).Lsh(bigOne, uint(i)), it.p.bounds)
		}
		x = ts.ModC(x, new(big.Int).Lsh(bigOne, uint(j-i)), it.p.bounds)
		res = ts.Add(res, ts.MulC(x, new(big.Int).Lsh(bigOne, uint(i))))
		i = j
	}
	return res
}

func (it *Interp) bitOp(fr *Frame, op token.Token, x, y Value, k ikind) Value {
	ts := it.ts
	a, b := it.toTerm(x, k), it.toTerm(y, k)
	if a.isConst() && op != token.AND_NOT {
		a, b = b, a
	}
	if b.isConst() {
		c := b.c
		full := new(big.Int).Lsh(bigOne, uint(k.bits))
		m := eMod(c, full)
		switch op {
		case token.AND:
			if c.Sign() < 0 { // x & -2^k style masks
				inv := new(big.Int).Sub(new(big.Int).Neg(c), bigOne) // ^c
				return it.wrap(ts.Sub(a, it.maskAnd(a, inv)), k)
			}
			return it.wrap(it.maskAnd(a, m), k)
		case token.OR:
			if c.Sign() >= 0 {
				return it.wrap(ts.Sub(ts.Add(a, b), it.maskAnd(a, m)), k)
			}
		case token.XOR:
			if c.Sign() >= 0 {
				return it.wrap(ts.Sub(ts.Add(a, b), ts.MulC(it.maskAnd(a, m), big.NewInt(2))), k)
			}
		case token.AND_NOT:
			if c.Sign() >= 0 {
				return it.wrap(ts.Sub(a, it.maskAnd(a, m)), k)
			}
		}
	}
	if op == token.OR || op == token.XOR {
		// disjoint bits: low part smaller than the common factor of the other
		for i := 0; i < 2; i++ {
			lo, hi := ts.interval(a, it.p.bounds)
			if lo != nil && hi != nil && lo.Sign() >= 0 {
				g := factor(b)
				if g != nil && hi.Cmp(g) < 0 {
					p2 := new(big.Int).Lsh(bigOne, g.TrailingZeroBits())
					if hi.Cmp(p2) < 0 {
						return it.wrap(ts.Add(a, b), k)
					}
				}
			}
			a, b = b, a
		}
	}
	name := map[token.Token]string{token.AND: "bvand", token.OR: "bvor", token.XOR: "bvxor"}[op]
	if name == "" || k.signed {
		al, _ := ts.interval(a, it.p.bounds)
		bl, _ := ts.interval(b, it.p.bounds)
		if name == "" || al == nil || bl == nil || al.Sign() < 0 || bl.Sign() < 0 {
			return it.intOp(fr, op, it.pin(a), it.pin(b), k, k)
		}
	}
	return it.simp(ts.mk(&Term{op: OpBits, name: name, c: big.NewInt(int64(k.bits)), args: []*Term{a, b}}))
}

func factor(t *Term) *big.Int {
	switch t.op {
	case OpConst:
		return new(big.Int).Abs(t.c)
	case OpLin:
		g := new(big.Int).Abs(t.c)
		for _, k := range t.coefs {
			g.GCD(nil, nil, g, new(big.Int).Abs(k))
		}
		return g
	}
	return nil
}

func (it *Interp) binop(fr *Frame, op token.Token, x, y Value, t types.Type, k, k2 ikind) Value {
	ts := it.ts
	switch op {
	case token.EQL:
		return it.equal(fr, x, y)
	case token.NEQ:
		return it.not(it.equal(fr, x, y))
	}
	_, xs := x.(*Term)
	_, ys := y.(*Term)
	if xs || ys {
		if k.bits == 0 {
			// boolean & | on terms
			if a, ok := x.(*Term); ok && a.isBool() {
				b := it.toTerm(y, k)
				switch op {
				case token.AND:
					return it.simp(ts.And(a, b))
				case token.OR:
					return it.simp(ts.Or(a, b))
				}
			}
			it.unsupported(fr, "binop %s on %T %T", op, x, y)
		}
		a, b := it.toTerm(x, k), it.toTerm(y, k2)
		switch op {
		case token.ADD:
			return it.wrap(ts.Add(a, b), k)
		case token.SUB:
			return it.wrap(ts.Sub(a, b), k)
		case token.MUL:
			return it.wrap(ts.Mul(a, b), k)
		case token.QUO, token.REM:
			return it.divrem(fr, op, a, b, k)
		case token.AND, token.OR, token.XOR, token.AND_NOT:
			return it.bitOp(fr, op, x, y, k)
		case token.SHL, token.SHR:
			var sh int64
			if b.isConst() {
				sh = b.c.Int64()
			} else {
				sh = it.concretize(b)
			}
			if sh < 0 {
				it.rtPanic(fr, "negative shift amount")
			}
			if op == token.SHL {
				if sh >= int64(k.bits) {
					return int64(0)
				}
				if a.isConst() {
					return it.intOp(fr, op, it.simp(a).(int64), sh, k, ikind{64, true})
				}
				r := ts.MulC(a, new(big.Int).Lsh(bigOne, uint(sh)))
				return it.wrap(r, k)
			}
			if sh >= 64 {
				sh = 64
			}
			return it.simp(ts.DivC(a, new(big.Int).Lsh(bigOne, uint(sh)), it.p.bounds))
		case token.LSS:
			return it.simp(ts.Lt(a, b))
		case token.LEQ:
			return it.simp(ts.Le(a, b))
		case token.GTR:
			return it.simp(ts.Lt(b, a))
		case token.GEQ:
			return it.simp(ts.Le(b, a))
		}
		it.unsupported(fr, "symbolic op %s", op)
	}
	switch a := x.(type) {
	case int64:
		if b, ok := y.(int64); ok {
			return it.intOp(fr, op, a, b, k, k2)
		}
	case float64:
		if b, ok := y.(float64); ok {
			return floatOp(it, fr, op, a, b, t)
		}
		if b, ok := y.(*FInt); ok {
			return it.fintOp(fr, op, a, b)
		}
	case *FInt:
		return it.fintOp(fr, op, a, y)
	case string, *SStr:
		switch y.(type) {
		case string, *SStr:
			switch op {
			case token.ADD:
				return it.concat(x, y)
			case token.LSS, token.LEQ, token.GTR, token.GEQ:
				return it.strCmp(fr, op, x, y)
			}
		}
	case bool:
		if b, ok := y.(bool); ok {
			switch op {
			case token.AND, token.LAND:
				return a && b
			case token.OR, token.LOR:
				return a || b
			}
		}
	case Poison:
		it.unsupported(fr, "poison operand: %s", a.why)
	}
	it.unsupported(fr, "binop %s on %T and %T", op, x, y)
	return nil
}

func (it *Interp) divrem(fr *Frame, op token.Token, a, b *Term, k ikind) Value {
	ts := it.ts
	if !b.isConst() {
		if it.branch(ts.Eq(b, ts.zero)) {
			it.rtPanic(fr, "integer divide by zero")
		}
		b = ts.Int(it.concretize(b))
	}
	m := b.c
	if m.Sign() == 0 {
		it.rtPanic(fr, "integer divide by zero")
	}
	neg := m.Sign() < 0
	am := new(big.Int).Abs(m)
	lo, hi := ts.interval(a, it.p.bounds)
	var q *Term
	switch {
	case lo != nil && lo.Sign() >= 0:
		q = ts.DivC(a, am, it.p.bounds)
	case hi != nil && hi.Sign() <= 0:
		q = ts.Neg(ts.DivC(ts.Neg(a), am, it.p.bounds))
	default:
		if it.branch(ts.Le(ts.zero, a)) {
			q = ts.DivC(a, am, it.p.bounds)
		} else {
			q = ts.Neg(ts.DivC(ts.Neg(a), am, it.p.bounds))
		}
	}
	if op == token.QUO {
		if neg {
			q = ts.Neg(q)
		}
		return it.wrap(q, k)
	}
	// remainder, simplified through ModC where the sign is known
	lo, hi = ts.interval(a, it.p.bounds)
	if lo != nil && lo.Sign() >= 0 {
		return it.simp(ts.ModC(a, am, it.p.bounds))
	}
	if hi != nil && hi.Sign() <= 0 {
		return it.simp(ts.Neg(ts.ModC(ts.Neg(a), am, it.p.bounds)))
	}
	return it.simp(ts.Sub(a, ts.MulC(q, am)))
}

func floatOp(it *Interp, fr *Frame, op token.Token, a, b float64, t types.Type) Value {
	f32 := false
	if bt, ok := t.Underlying().(*types.Basic); ok && bt.Kind() == types.Float32 {
		f32 = true
	}
	r := func(f float64) Value {
		if f32 {
			return float64(float32(f))
		}
		return f
	}
	switch op {
	case token.ADD:
		return r(a + b)
	case token.SUB:
		return r(a - b)
	case token.MUL:
		return r(a * b)
	case token.QUO:
		return r(a / b)
	case token.LSS:
		return a < b
	case token.LEQ:
		return a <= b
	case token.GTR:
		return a > b
	case token.GEQ:
		return a >= b
	}
	it.unsupported(fr, "float op %s", op)
	return nil
}

func (it *Interp) pinF(v Value) float64 {
	switch v := v.(type) {
	case float64:
		return v
	case *FInt:
		return float64(it.pin(v.t))
	}
	panic(engineErr{fmt.Sprintf("pinF %T", v), ""})
}

func (it *Interp) fintOp(fr *Frame, op token.Token, x, y Value) Value {
	toI := func(v Value) (*Term, bool) {
		switch v := v.(type) {
		case *FInt:
			return v.t, true
		case float64:
			if v == math.Trunc(v) && math.Abs(v) < 1<<53 {
				return it.ts.Int(int64(v)), true
			}
		}
		return nil, false
	}
	a, ok1 := toI(x)
	b, ok2 := toI(y)
	if ok1 && ok2 {
		ts := it.ts
		switch op {
		case token.ADD:
			return &FInt{ts.Add(a, b)}
		case token.SUB:
			return &FInt{ts.Sub(a, b)}
		case token.LSS:
			return it.simp(ts.Lt(a, b))
		case token.LEQ:
			return it.simp(ts.Le(a, b))
		case token.GTR:
			return it.simp(ts.Lt(b, a))
		case token.GEQ:
			return it.simp(ts.Le(b, a))
		case token.MUL:
			if a.isConst() || b.isConst() {
				return &FInt{ts.Mul(a, b)}
			}
		}
	}
	return floatOp(it, fr, op, it.pinF(x), it.pinF(y), types.Typ[types.Float64])
}

// truth turns a boolean value into a decision of the current path.
func (it *Interp) truth(v Value) bool {
	switch v := v.(type) {
	case bool:
		return v
	case *Term:
		return it.branch(v)
	}
	panic(engineErr{fmt.Sprintf("truth of %T", v), ""})
}

func (it *Interp) concInt(v Value) int64 {
	switch v := v.(type) {
	case int64:
		return v
	case *Term:
		return it.concretize(v)
	}
	panic(engineErr{fmt.Sprintf("integer is %T", v), ""})
}

// equal compares two values of the same Go type; the result is bool or *Term.
func (it *Interp) equal(fr *Frame, x, y Value) Value {
	ts := it.ts
	switch a := x.(type) {
	case int64:
		switch b := y.(type) {
		case int64:
			return a == b
		case *Term:
			return it.simp(ts.Eq(it.eqTerm(a, b), b))
		}
	case *Term:
		switch b := y.(type) {
		case *Term:
			return it.simp(ts.Eq(a, b))
		case int64:
			return it.simp(ts.Eq(a, it.eqTerm(b, a)))
		case bool:
			if b {
				return a
			}
			return it.not(a)
		}
	case bool:
		switch b := y.(type) {
		case bool:
			return a == b
		case *Term:
			if a {
				return b
			}
			return it.not(b)
		}
	case float64:
		switch b := y.(type) {
		case float64:
			return a == b
		case *FInt:
			if a == math.Trunc(a) && math.Abs(a) < 1e18 {
				return it.simp(ts.Eq(b.t, ts.Int(int64(a))))
			}
			return false
		}
	case *FInt:
		switch b := y.(type) {
		case float64:
			return it.equal(fr, y, x)
		case *FInt:
			return it.simp(ts.Eq(a.t, b.t))
		}
	case string, *SStr:
		switch y.(type) {
		case string, *SStr:
			return it.strEq(fr, x, y)
		}
	case *Value:
		switch b := y.(type) {
		case *Value:
			return a == b
		case *DataPtr, *NativeObj:
			return false
		}
	case *DataPtr:
		b, ok := y.(*DataPtr)
		return ok && a == b
	case *ChanV:
		b, ok := y.(*ChanV)
		return ok && a == b
	case *NativeObj:
		b, ok := y.(*NativeObj)
		return ok && a == b
	case *Opaque:
		b, ok := y.(*Opaque)
		return ok && a == b
	case *MapV:
		b, ok := y.(*MapV)
		return ok && a == b
	case Slice:
		if b, ok := y.(Slice); ok {
			if b.a == nil {
				return a.a == nil
			}
			if a.a == nil {
				return b.a == nil
			}
		}
		it.unsupported(fr, "slice comparison")
	case *Closure:
		switch b := y.(type) {
		case *Closure:
			if a == nil || b == nil {
				return a == nil && b == nil
			}
		case *Native:
			return false
		}
		it.unsupported(fr, "func comparison")
	case *Native:
		return false
	case Iface:
		b, ok := y.(Iface)
		if !ok {
			it.unsupported(fr, "interface compared with %T", y)
		}
		if a.t == nil || b.t == nil {
			return a.t == nil && b.t == nil
		}
		if !it.sameType(a.t, b.t) {
			return false
		}
		switch a.v.(type) {
		case Slice, *MapV, *Closure:
			it.rtPanic(fr, "comparing uncomparable type "+a.t.String())
		}
		return it.equal(fr, a.v, b.v)
	case Struct:
		b, ok := y.(Struct)
		if !ok || len(a) != len(b) {
			it.unsupported(fr, "struct comparison")
		}
		return it.equalSeq(fr, a, b)
	case Array:
		b, ok := y.(Array)
		if !ok || len(a) != len(b) {
			it.unsupported(fr, "array comparison")
		}
		return it.equalSeq(fr, a, b)
	case Poison:
		it.unsupported(fr, "poison comparison: %s", a.why)
	case nil:
		return y == nil
	}
	it.unsupported(fr, "comparison of %T and %T", x, y)
	return nil
}

func (it *Interp) eqTerm(c int64, other *Term) *Term {
	if c < 0 && other.lo != nil && other.lo.Sign() >= 0 {
		// unsigned 64-bit constant
		if other.hi != nil && other.hi.BitLen() > 63 {
			return it.ts.Big(new(big.Int).SetUint64(uint64(c)))
		}
	}
	return it.ts.Int(c)
}

func (it *Interp) equalSeq(fr *Frame, a, b []Value) Value {
	var cs []*Term
	for i := range a {
		switch r := it.equal(fr, a[i], b[i]).(type) {
		case bool:
			if !r {
				return false
			}
		case *Term:
			cs = append(cs, r)
		}
	}
	return it.simp(it.ts.And(cs...))
}

// ---- conversions ----

func (it *Interp) convert(fr *Frame, x Value, from, to types.Type) Value {
	if ps, ok := x.(Poison); ok {
		it.unsupported(fr, "poison conversion: %s", ps.why)
	}
	uf, ut := from.Underlying(), to.Underlying()
	if _, ok := ut.(*types.TypeParam); ok {
		return x
	}
	switch d := ut.(type) {
	case *types.Pointer:
		return x
	case *types.Slice:
		switch s := x.(type) {
		case string, *SStr:
			eb := d.Elem().Underlying().(*types.Basic)
			if eb.Kind() == types.Uint8 {
				return Slice{it.strBytes(fr, s)}
			}
			var out []Value
			iter := &strIter{s: s}
			for {
				t := it.strNext(fr, iter).(Tuple)
				if !t[0].(bool) {
					break
				}
				out = append(out, t[2])
			}
			if out == nil {
				out = []Value{}
			}
			return Slice{out}
		case Slice:
			return s
		}
	case *types.Basic:
		switch {
		case d.Kind() == types.UnsafePointer:
			return x
		case d.Info()&types.IsString != 0:
			switch s := x.(type) {
			case string, *SStr:
				return s
			case Slice:
				eb := uf.(*types.Slice).Elem().Underlying().(*types.Basic)
				if eb.Kind() == types.Uint8 {
					return bytesToStr(s.a)
				}
				var res Value = ""
				for _, r := range s.a {
					res = it.concat(res, it.runeToStr(fr, r))
				}
				return res
			case int64:
				if s < 0 || s > 0x10ffff {
					return "\uFFFD"
				}
				return string(rune(s))
			case *Term:
				return it.runeToStr(fr, s)
			}
		case d.Info()&types.IsInteger != 0:
			k, _ := intKind(to)
			switch s := x.(type) {
			case int64:
				return k.norm(s)
			case *Term:
				return it.wrap(s, k)
			case float64:
				if !k.signed && s >= 9.223372036854775808e18 {
					return k.norm(int64(uint64(s)))
				}
				return k.norm(int64(s))
			case *FInt:
				return it.wrap(s.t, k)
			case *Value, *DataPtr:
				it.unsupported(fr, "pointer to integer conversion")
			}
		case d.Info()&types.IsFloat != 0:
			fk, _ := intKind(from)
			switch s := x.(type) {
			case int64:
				var f float64
				if !fk.signed && fk.bits == 64 {
					f = float64(uint64(s))
				} else {
					f = float64(s)
				}
				if d.Kind() == types.Float32 {
					f = float64(float32(f))
				}
				return f
			case *Term:
				lo, hi := it.ts.interval(s, it.p.bounds)
				lim := new(big.Int).Lsh(bigOne, 53)
				if lo != nil && hi != nil && lo.CmpAbs(lim) <= 0 && hi.CmpAbs(lim) <= 0 {
					return &FInt{s}
				}
				return float64(it.pin(s))
			case float64:
				if d.Kind() == types.Float32 {
					return float64(float32(s))
				}
				return s
			case *FInt:
				return s
			}
		}
	}
	it.unsupported(fr, "convert %T from %s to %s", x, from, to)
	return nil
}

func (it *Interp) runeToStr(fr *Frame, r Value) Value {
	switch r := r.(type) {
	case int64:
		return string(rune(r))
	case *Term:
		if it.branch(it.ts.And(it.ts.Le(it.ts.zero, r), it.ts.Lt(r, it.ts.Int(128)))) {
			return mkSStr([]Seg{{b: []Value{r}}})
		}
		return string(rune(it.concretize(r)))
	}
	it.unsupported(fr, "rune %T", r)
	return nil
}

// ---- builtins ----

func (it *Interp) builtin(fr *Frame, bi *ssa.Builtin, ci *cinstr, args []Value) Value {
	switch bi.Name() {
	case "len":
		switch x := args[0].(type) {
		case string:
			return int64(len(x))
		case *SStr:
			return it.strLen(x)
		case Slice:
			return int64(len(x.a))
		case *MapV:
			if x == nil {
				return int64(0)
			}
			if it.p.race != nil {
				it.p.race.accessMap(it, fr, x, false)
			}
			return int64(x.n)
		case *ChanV:
			if x == nil {
				return int64(0)
			}
			return int64(len(x.buf))
		case Array:
			return int64(len(x))
		case *Value:
			return int64(len((*x).(Array)))
		}
	case "cap":
		switch x := args[0].(type) {
		case Slice:
			return int64(cap(x.a))
		case *ChanV:
			if x == nil {
				return int64(0)
			}
			return int64(x.cap)
		case Array:
			return int64(len(x))
		case *Value:
			return int64(len((*x).(Array)))
		}
	case "append":
		s, ok := args[0].(Slice)
		if !ok {
			it.unsupported(fr, "append to %T", args[0])
		}
		var add []Value
		switch y := args[1].(type) {
		case Slice:
			add = y.a
		case string, *SStr:
			add = it.strBytes(fr, y)
		default:
			it.unsupported(fr, "append of %T", y)
		}
		if len(add) == 0 {
			return s
		}
		if it.p.race != nil {
			for i := range add {
				it.p.race.access(it, fr, &add[i], false)
			}
		}
		n := len(s.a) + len(add)
		var res []Value
		if n <= cap(s.a) {
			res = s.a[:n]
		} else {
			nc := cap(s.a) * 2
			if nc < n {
				nc = n
			}
			if nc < 4 {
				nc = 4
			}
			if nc > 1<<22 {
				panic(pathEnd{"bound:allocation"})
			}
			res = make([]Value, n, nc)
			// spare capacity holds zero values
			for i, v := range s.a {
				res[i] = v
			}
			if spare := res[n:nc]; len(spare) > 0 {
				z := zeroLike(add[0])
				for i := range spare {
					spare[i] = copyVal(z)
				}
			}
			// aggregate elements must not share identity with the old array
			for i := range s.a {
				res[i] = copyVal(res[i])
			}
		}
		tmp := make([]Value, len(add))
		for i, v := range add {
			tmp[i] = copyVal(v)
		}
		for i, v := range tmp {
			if it.p.race != nil {
				it.p.race.access(it, fr, &res[len(s.a)+i], true)
			}
			res[len(s.a)+i] = v
		}
		return Slice{res}
	case "copy":
		d := args[0].(Slice)
		var src []Value
		switch y := args[1].(type) {
		case Slice:
			src = y.a
		case string, *SStr:
			src = it.strBytes(fr, y)
		}
		n := len(src)
		if len(d.a) < n {
			n = len(d.a)
		}
		tmp := make([]Value, n)
		for i := 0; i < n; i++ {
			tmp[i] = copyVal(src[i])
		}
		for i := 0; i < n; i++ {
			if it.p.race != nil {
				it.p.race.access(it, fr, &d.a[i], true)
			}
			d.a[i] = tmp[i]
		}
		return int64(n)
	case "delete":
		it.mapDelete(fr, args[0].(*MapV), args[1])
		return nil
	case "clear":
		switch x := args[0].(type) {
		case *MapV:
			if x != nil {
				if it.p.race != nil {
					it.p.race.accessMap(it, fr, x, true)
				}
				for _, e := range x.ents {
					e.dead = true
				}
				x.ents, x.idx, x.nsym, x.n = nil, map[string]*mapEnt{}, 0, 0
			}
		case Slice:
			if len(x.a) > 0 {
				et := bi.Type().(*types.Signature).Params().At(0).Type().Underlying().(*types.Slice).Elem()
				for i := range x.a {
					storeInto(&x.a[i], zero(et))
				}
			}
		}
		return nil
	case "close":
		it.chanClose(fr, args[0])
		return nil
	case "print", "println":
		return nil
	case "recover":
		p := fr.deferParent
		if p != nil && p.panicking {
			p.panicking = false
			v := p.panicV.v
			return v
		}
		return Iface{}
	case "min", "max":
		t := bi.Type().(*types.Signature).Params().At(0).Type()
		k, isInt := intKind(t)
		res := args[0]
		for _, y := range args[1:] {
			op := token.LSS
			if bi.Name() == "max" {
				op = token.GTR
			}
			var c Value
			a, ok1 := res.(int64)
			b, ok2 := y.(int64)
			if ok1 && ok2 {
				c = it.intOp(fr, op, b, a, k, k)
			} else {
				c = it.binop(fr, op, y, res, t, k, k)
			}
			switch c := c.(type) {
			case bool:
				if c {
					res = y
				}
			case *Term:
				if isInt {
					if v, known := it.ts.decide(c, it.p.bounds); known {
						if v {
							res = y
						}
						continue
					}
					if it.branch(c) {
						res = y
					}
				} else if it.branch(c) {
					res = y
				}
			}
		}
		return res
	case "ssa:wrapnilchk":
		p, ok := args[0].(*Value)
		if ok && p == nil {
			it.rtPanic(fr, "value method called using nil pointer")
		}
		return args[0]
	case "ssa:deferstack":
		return (*Value)(nil)
	case "String": // unsafe.String
		n := it.concInt(args[1])
		return it.unsafeString(fr, args[0], n)
	case "StringData":
		return &DataPtr{str: args[0]}
	case "SliceData":
		s := args[0].(Slice)
		if s.a == nil {
			return (*Value)(nil)
		}
		return &DataPtr{sl: s.a}
	case "Slice": // unsafe.Slice
		n := it.concInt(args[1])
		switch p := args[0].(type) {
		case *DataPtr:
			if p.sl != nil {
				return Slice{p.sl[:n]}
			}
			return Slice{it.strBytes(fr, p.str)[:n]}
		case *Value:
			if p == nil && n == 0 {
				return Slice{}
			}
			if n == 1 {
				if arr, ok := (*p).(Array); ok {
					return Slice{arr}
				}
			}
		}
	}
	it.unsupported(fr, "builtin %s on %T", bi.Name(), args[0])
	return nil
}

func zeroLike(v Value) Value {
	switch v := v.(type) {
	case int64:
		return int64(0)
	case *Term:
		if v.isBool() {
			return false
		}
		return int64(0)
	case bool:
		return false
	case float64, *FInt:
		return float64(0)
	case string, *SStr:
		return ""
	case *Value:
		return (*Value)(nil)
	case Slice:
		return Slice{}
	case *MapV:
		return (*MapV)(nil)
	case *ChanV:
		return (*ChanV)(nil)
	case *Closure, *Native:
		return (*Closure)(nil)
	case Iface:
		return Iface{}
	case Struct:
		s := make(Struct, len(v))
		for i := range v {
			s[i] = zeroLike(v[i])
		}
		return s
	case Array:
		s := make(Array, len(v))
		for i := range v {
			s[i] = zeroLike(v[i])
		}
		return s
	}
	return nil
}

func (it *Interp) unsafeString(fr *Frame, p Value, n int64) Value {
	switch p := p.(type) {
	case *DataPtr:
		if p.sl != nil {
			return bytesToStr(p.sl[:n])
		}
		return it.strSlice(fr, p.str, int64(0), n)
	case *Value:
		if n == 0 {
			return ""
		}
	}
	it.unsupported(fr, "unsafe.String of %T", p)
	return nil
}

var _ = bits.Len
