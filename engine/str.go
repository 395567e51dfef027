package main

import (
	"go/token"
	"go/types"
	"math/big"
	"net/http"
	"strconv"
	"strings"
	"time"
	"unicode/utf8"
)

// SStr is a string with symbolic content: a sequence of byte vectors and lazy
// pieces (decimal rendering of an integer term, formatted time) whose bytes
// are only materialised when an operation needs them.
type SStr struct{ segs []Seg }

type Seg struct {
	b []Value
	l *Lazy
}

type Lazy struct {
	kind   byte // 'd' decimal, 't' formatted UTC time (unix seconds)
	t      *Term
	layout string
}

func (s *SStr) show() string {
	var b strings.Builder
	for _, g := range s.segs {
		if g.l != nil {
			b.WriteString("<" + string(g.l.kind) + ":" + ref(g.l.t) + ">")
			continue
		}
		for _, x := range g.b {
			if c, ok := x.(int64); ok {
				b.WriteByte(byte(c))
			} else {
				b.WriteString("<?>")
			}
		}
	}
	return "\"" + b.String() + "\""
}

func mkSStr(segs []Seg) Value {
	var out []Seg
	for _, g := range segs {
		if g.l != nil {
			if g.l.t.isConst() {
				g = Seg{b: strVals(g.l.render(g.l.t.c.Int64()))}
			} else {
				out = append(out, g)
				continue
			}
		}
		if len(g.b) == 0 {
			continue
		}
		if n := len(out); n > 0 && out[n-1].l == nil {
			nb := make([]Value, 0, len(out[n-1].b)+len(g.b))
			nb = append(append(nb, out[n-1].b...), g.b...)
			out[n-1] = Seg{b: nb}
		} else {
			out = append(out, g)
		}
	}
	if len(out) == 0 {
		return ""
	}
	if len(out) == 1 && out[0].l == nil {
		if s, ok := concBytes(out[0].b); ok {
			return s
		}
	}
	return &SStr{out}
}

func concBytes(b []Value) (string, bool) {
	buf := make([]byte, len(b))
	for i, x := range b {
		c, ok := x.(int64)
		if !ok {
			return "", false
		}
		buf[i] = byte(c)
	}
	return string(buf), true
}

func strVals(s string) []Value {
	b := make([]Value, len(s))
	for i := range b {
		b[i] = int64(s[i])
	}
	return b
}

func bytesToStr(b []Value) Value {
	nb := make([]Value, len(b))
	copy(nb, b)
	return mkSStr([]Seg{{b: nb}})
}

func segsOf(v Value) []Seg {
	switch v := v.(type) {
	case string:
		if v == "" {
			return nil
		}
		return []Seg{{b: strVals(v)}}
	case *SStr:
		return v.segs
	}
	panic(engineErr{"string is " + showVal(v), ""})
}

func (l *Lazy) render(v int64) string {
	if l.kind == 'd' {
		return strconv.FormatInt(v, 10)
	}
	return time.Unix(v, 0).UTC().Format(l.layout)
}

func (it *Interp) concat(x, y Value) Value {
	a, ok1 := x.(string)
	b, ok2 := y.(string)
	if ok1 && ok2 {
		return a + b
	}
	return mkSStr(append(append([]Seg{}, segsOf(x)...), segsOf(y)...))
}

func hasLazy(v Value) bool {
	s, ok := v.(*SStr)
	if !ok {
		return false
	}
	for _, g := range s.segs {
		if g.l != nil {
			return true
		}
	}
	return false
}

var pow10 [40]*big.Int

func init() {
	pow10[0] = big.NewInt(1)
	for i := 1; i < len(pow10); i++ {
		pow10[i] = new(big.Int).Mul(pow10[i-1], big.NewInt(10))
	}
}

// lazyBytes materialises a lazy piece (forking on the number of digits).
func (it *Interp) lazyBytes(l *Lazy) []Value {
	ts := it.ts
	if l.kind == 'd' {
		t := l.t
		var out []Value
		if it.branch(ts.Lt(t, ts.zero)) {
			out = append(out, int64('-'))
			t = ts.Neg(t)
		}
		n := 1
		for n < 20 && !it.branch(ts.Lt(t, ts.Big(pow10[n]))) {
			n++
		}
		for i := n - 1; i >= 0; i-- {
			d := ts.ModC(ts.DivC(t, pow10[i], it.p.bounds), big.NewInt(10), it.p.bounds)
			out = append(out, it.simp(ts.Add(d, ts.Int('0'))))
		}
		return out
	}
	return strVals(l.render(it.pin(l.t)))
}

func (it *Interp) lazyLen(l *Lazy) int {
	if l.kind == 't' && (l.layout == http.TimeFormat) {
		return 29
	}
	return len(it.lazyBytes(l))
}

// flat returns the bytes of a string, materialising lazy pieces.
func (it *Interp) flat(v Value) []Value {
	switch v := v.(type) {
	case string:
		return strVals(v)
	case *SStr:
		if len(v.segs) == 1 && v.segs[0].l == nil {
			return v.segs[0].b
		}
		var out []Value
		for _, g := range v.segs {
			if g.l != nil {
				out = append(out, it.lazyBytes(g.l)...)
			} else {
				out = append(out, g.b...)
			}
		}
		return out
	}
	panic(engineErr{"string is " + showVal(v), ""})
}

func (it *Interp) strBytes(fr *Frame, v Value) []Value {
	b := it.flat(v)
	out := make([]Value, len(b))
	copy(out, b)
	return out
}

func (it *Interp) strLen(v Value) Value {
	switch v := v.(type) {
	case string:
		return int64(len(v))
	case *SStr:
		n := 0
		for _, g := range v.segs {
			if g.l != nil {
				n += it.lazyLen(g.l)
			} else {
				n += len(g.b)
			}
		}
		return int64(n)
	}
	panic(engineErr{"len of " + showVal(v), ""})
}

func (it *Interp) strIndex(fr *Frame, x, iv Value) Value {
	if s, ok := x.(string); ok {
		if i, ok := iv.(int64); ok {
			if i < 0 || i >= int64(len(s)) {
				it.rtPanic(fr, "index out of range")
			}
			return int64(s[i])
		}
	}
	if i, ok := iv.(int64); ok {
		if s, ok := x.(*SStr); ok {
			if g := s.segs[0]; g.l == nil && i >= 0 && i < int64(len(g.b)) {
				return g.b[i]
			}
		}
	}
	b := it.flat(x)
	if t, ok := iv.(*Term); ok {
		in := it.ts.And(it.ts.Le(it.ts.zero, t), it.ts.Lt(t, it.ts.Int(int64(len(b)))))
		if !it.branch(in) {
			it.rtPanic(fr, "index out of range")
		}
		if r, ok := it.iteLookup(b, t); ok {
			return r
		}
		iv = it.concretize(t)
	}
	i := iv.(int64)
	if i < 0 || i >= int64(len(b)) {
		it.rtPanic(fr, "index out of range")
	}
	return b[i]
}

func (it *Interp) strSlice(fr *Frame, x, lo, hi Value) Value {
	l := it.concInt(lo)
	if s, ok := x.(string); ok {
		h := int64(len(s))
		if hi != nil {
			h = it.concInt(hi)
		}
		if l < 0 || h < l || h > int64(len(s)) {
			it.rtPanic(fr, "slice bounds out of range")
		}
		return s[l:h]
	}
	s := x.(*SStr)
	if hi == nil && l == 0 {
		return x
	}
	n := it.strLen(x).(int64)
	h := n
	if hi != nil {
		h = it.concInt(hi)
	}
	if l < 0 || h < l || h > n {
		it.rtPanic(fr, "slice bounds out of range")
	}
	var out []Seg
	pos := int64(0)
	for _, g := range s.segs {
		var gl int64
		if g.l != nil {
			gl = int64(it.lazyLen(g.l))
		} else {
			gl = int64(len(g.b))
		}
		a, b := max(l-pos, 0), min(h-pos, gl)
		if a < b {
			if a == 0 && b == gl {
				out = append(out, g)
			} else {
				bs := g.b
				if g.l != nil {
					bs = it.lazyBytes(g.l)
				}
				out = append(out, Seg{b: bs[a:b]})
			}
		}
		pos += gl
	}
	return mkSStr(out)
}

// strNext implements range over strings.
func (it *Interp) strNext(fr *Frame, x *strIter) Value {
	if s, ok := x.s.(string); ok {
		if x.i >= int64(len(s)) {
			return Tuple{false, int64(0), int64(0)}
		}
		r, w := utf8.DecodeRuneInString(s[x.i:])
		i := x.i
		x.i += int64(w)
		return Tuple{true, i, int64(r)}
	}
	if hasLazy(x.s) {
		x.s = mkSStr([]Seg{{b: it.flat(x.s)}})
	}
	n := it.strLen(x.s).(int64)
	if x.i >= n {
		return Tuple{false, int64(0), int64(0)}
	}
	b := it.strIndex(fr, x.s, x.i)
	i := x.i
	ascii := false
	switch c := b.(type) {
	case int64:
		ascii = c < 0x80
	case *Term:
		ascii = it.branch(it.ts.Lt(c, it.ts.Int(0x80)))
	}
	if ascii {
		x.i++
		return Tuple{true, i, b}
	}
	fn := it.e.stdFunc("unicode/utf8", "DecodeRuneInString")
	r := it.callFn(fr, fn, []Value{it.strSlice(fr, x.s, i, nil)}, nil).(Tuple)
	x.i += it.concInt(r[1])
	return Tuple{true, i, r[0]}
}

func (it *Interp) byteEq(a, b Value) Value {
	x, ok1 := a.(int64)
	y, ok2 := b.(int64)
	if ok1 && ok2 {
		return x == y
	}
	return it.simp(it.ts.Eq(it.byteT(a), it.byteT(b)))
}

func (it *Interp) byteT(a Value) *Term {
	switch a := a.(type) {
	case int64:
		return it.ts.Int(a)
	case *Term:
		return a
	}
	panic(engineErr{"byte is " + showVal(a), ""})
}

func isDigit(v Value) (yes, known bool) {
	c, ok := v.(int64)
	if !ok {
		return false, false
	}
	return c >= '0' && c <= '9', true
}

// strEq compares two strings, keeping lazy pieces unexpanded where possible.
func (it *Interp) strEq(fr *Frame, x, y Value) Value {
	a, ok1 := x.(string)
	b, ok2 := y.(string)
	if ok1 && ok2 {
		return a == b
	}
	if !hasLazy(x) && !hasLazy(y) {
		return it.bytesEq(it.flat(x), it.flat(y))
	}
	if r, ok := it.lazyEq(segsOf(x), segsOf(y)); ok {
		return r
	}
	return it.bytesEq(it.flat(x), it.flat(y))
}

func (it *Interp) bytesEq(p, q []Value) Value {
	if len(p) != len(q) {
		return false
	}
	var cs []*Term
	for i := range p {
		switch r := it.byteEq(p[i], q[i]).(type) {
		case bool:
			if !r {
				return false
			}
		case *Term:
			cs = append(cs, r)
		}
	}
	return it.simp(it.ts.And(cs...))
}

type segCur struct {
	s   []Seg
	off int
}

func (c *segCur) head() (lz *Lazy, b Value, end bool) {
	for len(c.s) > 0 && c.s[0].l == nil && c.off >= len(c.s[0].b) {
		c.s, c.off = c.s[1:], 0
	}
	if len(c.s) == 0 {
		return nil, nil, true
	}
	if c.s[0].l != nil {
		return c.s[0].l, nil, false
	}
	return nil, c.s[0].b[c.off], false
}
func (c *segCur) adv() {
	if c.s[0].l != nil {
		c.s, c.off = c.s[1:], 0
	} else {
		c.off++
	}
}

// delimited reports whether the piece is certainly followed by a non-digit.
func (c *segCur) delimited() bool {
	d := *c
	l, b, end := d.head()
	if end {
		return true
	}
	if l != nil {
		return l.kind == 't'
	}
	yes, known := isDigit(b)
	return known && !yes
}

func (it *Interp) lazyEq(a, b []Seg) (Value, bool) {
	ts := it.ts
	ca, cb := &segCur{a, 0}, &segCur{b, 0}
	var cs []*Term
	for {
		la, ba, ea := ca.head()
		lb, bb, eb := cb.head()
		if ea && eb {
			return it.simp(ts.And(cs...)), true
		}
		if ea || eb {
			return false, true // every piece is non-empty
		}
		if la == nil && lb == nil {
			switch r := it.byteEq(ba, bb).(type) {
			case bool:
				if !r {
					return false, true
				}
			case *Term:
				cs = append(cs, r)
			}
			ca.adv()
			cb.adv()
			continue
		}
		if la != nil && lb != nil {
			if la.kind != lb.kind || la.layout != lb.layout {
				if la.kind == 'd' && lb.kind == 't' || la.kind == 't' && lb.kind == 'd' {
					return false, true
				}
				return nil, false
			}
			ca.adv()
			cb.adv()
			if la.kind == 'd' && !(ca.delimited() && cb.delimited()) {
				return nil, false
			}
			cs = append(cs, ts.Eq(la.t, lb.t))
			continue
		}
		if lb != nil { // make a the lazy side
			ca, cb = cb, ca
			la, lb = lb, la
			ba, bb = bb, ba
		}
		switch la.kind {
		case 'd':
			// the other side must supply a concrete number
			var num []byte
			d := *cb
			for {
				l2, x, end := d.head()
				if end || l2 != nil {
					if l2 != nil && l2.kind == 'd' {
						return nil, false
					}
					break
				}
				c, ok := x.(int64)
				if !ok {
					return nil, false
				}
				if c == '-' && len(num) == 0 || c >= '0' && c <= '9' {
					num = append(num, byte(c))
					d.adv()
					continue
				}
				break
			}
			ca.adv()
			if !ca.delimited() {
				return nil, false
			}
			n, ok := new(big.Int).SetString(string(num), 10)
			if !ok || n.String() != string(num) {
				return false, true
			}
			cs = append(cs, ts.Eq(la.t, ts.Big(n)))
			*cb = d
		case 't':
			if la.layout != http.TimeFormat {
				return nil, false
			}
			var buf []byte
			for i := 0; i < 29; i++ {
				l2, x, end := cb.head()
				if end {
					return false, true
				}
				if l2 != nil {
					return nil, false
				}
				c, ok := x.(int64)
				if !ok {
					return nil, false
				}
				buf = append(buf, byte(c))
				cb.adv()
			}
			ca.adv()
			t, err := time.Parse(http.TimeFormat, string(buf))
			if err != nil || t.Format(http.TimeFormat) != string(buf) {
				return false, true
			}
			cs = append(cs, ts.Eq(la.t, ts.Int(t.Unix())))
		}
	}
}

func (it *Interp) strCmp(fr *Frame, op token.Token, x, y Value) Value {
	a, ok1 := x.(string)
	b, ok2 := y.(string)
	if ok1 && ok2 {
		switch op {
		case token.LSS:
			return a < b
		case token.LEQ:
			return a <= b
		case token.GTR:
			return a > b
		default:
			return a >= b
		}
	}
	p, q := it.flat(x), it.flat(y)
	switch op {
	case token.GTR:
		p, q, op = q, p, token.LSS
	case token.GEQ:
		p, q, op = q, p, token.LEQ
	}
	ts := it.ts
	res := ts.False
	pre := ts.True
	n := min(len(p), len(q))
	for i := 0; i < n; i++ {
		u, v := it.byteT(p[i]), it.byteT(q[i])
		res = ts.Or(res, ts.And(pre, ts.Lt(u, v)))
		pre = ts.And(pre, ts.Eq(u, v))
	}
	if len(p) < len(q) || (op == token.LEQ && len(p) == len(q)) {
		res = ts.Or(res, pre)
	}
	return it.simp(res)
}

// ---- helpers used by string intrinsics ----

func symStr(vs ...Value) bool {
	for _, v := range vs {
		if _, ok := v.(*SStr); ok {
			return true
		}
	}
	return false
}

func isSpaceByte(c int64) bool {
	return c == ' ' || c == '\t' || c == '\n' || c == '\v' || c == '\f' || c == '\r'
}

func (it *Interp) inSet(b Value, set string) bool {
	if c, ok := b.(int64); ok {
		return c < 128 && strings.IndexByte(set, byte(c)) >= 0
	}
	var cs []*Term
	for i := 0; i < len(set); i++ {
		cs = append(cs, it.ts.Eq(b.(*Term), it.ts.Int(int64(set[i]))))
	}
	return it.branch(it.ts.Or(cs...))
}

// trimSet trims bytes of an ASCII set from the ends of a symbolic string.
// Lazy pieces never start or end with a byte of the set (checked by callers).
func (it *Interp) trimSet(v Value, set string, left, right bool) Value {
	segs := append([]Seg{}, segsOf(v)...)
	if left {
		for len(segs) > 0 && segs[0].l == nil {
			if len(segs[0].b) == 0 {
				segs = segs[1:]
				continue
			}
			if !it.inSet(segs[0].b[0], set) {
				break
			}
			segs[0] = Seg{b: segs[0].b[1:]}
		}
	}
	if right {
		for len(segs) > 0 && segs[len(segs)-1].l == nil {
			g := segs[len(segs)-1]
			if len(g.b) == 0 {
				segs = segs[:len(segs)-1]
				continue
			}
			if !it.inSet(g.b[len(g.b)-1], set) {
				break
			}
			segs[len(segs)-1] = Seg{b: g.b[:len(g.b)-1]}
		}
	}
	return mkSStr(segs)
}

// allASCII decides whether every byte of the string is ASCII.
func (it *Interp) allASCII(v Value) bool {
	var cs []*Term
	for _, g := range segsOf(v) {
		for _, b := range g.b {
			switch b := b.(type) {
			case int64:
				if b >= 0x80 {
					return false
				}
			case *Term:
				cs = append(cs, it.ts.Lt(b, it.ts.Int(0x80)))
			}
		}
	}
	if len(cs) == 0 {
		return true
	}
	return it.branch(it.ts.And(cs...))
}

func (it *Interp) mapCase(v Value, upper bool) Value {
	lo, hi, d := int64('A'), int64('Z'), int64(32)
	if upper {
		lo, hi, d = 'a', 'z', -32
	}
	var out []Seg
	for _, g := range segsOf(v) {
		if g.l != nil {
			if g.l.kind == 't' {
				g = Seg{b: it.lazyBytes(g.l)}
			} else {
				out = append(out, g)
				continue
			}
		}
		nb := make([]Value, len(g.b))
		for i, b := range g.b {
			switch b := b.(type) {
			case int64:
				if b >= lo && b <= hi {
					b += d
				}
				nb[i] = b
			case *Term:
				ts := it.ts
				c := ts.And(ts.Le(ts.Int(lo), b), ts.Le(b, ts.Int(hi)))
				if v, known := ts.decide(c, it.p.bounds); known {
					if v {
						nb[i] = it.simp(ts.Add(b, ts.Int(d)))
					} else {
						nb[i] = b
					}
				} else {
					nb[i] = it.simp(ts.Ite(c, ts.Add(b, ts.Int(d)), b))
				}
			}
		}
		out = append(out, Seg{b: nb})
	}
	return mkSStr(out)
}

// splitSeg cuts v at the first occurrence of the (concrete, single byte)
// separator; lazy pieces must not contain it.
func (it *Interp) cutByte(v Value, sep byte) (before, after Value, found bool) {
	segs := segsOf(v)
	for i, g := range segs {
		if g.l != nil {
			if lazyMayContain(g.l, sep) {
				// materialise and retry
				ns := append([]Seg{}, segs...)
				ns[i] = Seg{b: it.lazyBytes(g.l)}
				return it.cutByte(&SStr{ns}, sep)
			}
			continue
		}
		for j, b := range g.b {
			eq := false
			switch b := b.(type) {
			case int64:
				eq = byte(b) == sep
			case *Term:
				eq = it.branch(it.ts.Eq(b, it.ts.Int(int64(sep))))
			}
			if eq {
				bs := append(append([]Seg{}, segs[:i]...), Seg{b: g.b[:j]})
				as := append([]Seg{{b: g.b[j+1:]}}, segs[i+1:]...)
				return mkSStr(bs), mkSStr(as), true
			}
		}
	}
	return mkSStr(append([]Seg{}, segs...)), "", false
}

func lazyMayContain(l *Lazy, c byte) bool {
	if l.kind == 'd' {
		return c == '-' || c >= '0' && c <= '9'
	}
	if l.layout == http.TimeFormat {
		return c == ',' || c == ' ' || c == ':' || c >= '0' && c <= '9' || c >= 'A' && c <= 'Z' || c >= 'a' && c <= 'z'
	}
	return true
}

// strIndexOf returns the index of the first occurrence of the concrete
// pattern in the (flat) symbolic string.
func (it *Interp) strIndexOf(v Value, pat []Value, from int) int {
	b := it.flat(v)
	for i := from; i+len(pat) <= len(b); i++ {
		if it.truth(it.bytesEq(b[i:i+len(pat)], pat)) {
			return i
		}
	}
	return -1
}

func (it *Interp) strLastIndexOf(v Value, pat []Value) int {
	b := it.flat(v)
	for i := len(b) - len(pat); i >= 0; i-- {
		if it.truth(it.bytesEq(b[i:i+len(pat)], pat)) {
			return i
		}
	}
	return -1
}

func strSlice2Val(xs []Value) Slice {
	if xs == nil {
		return Slice{}
	}
	return Slice{xs}
}

var _ = types.Typ
