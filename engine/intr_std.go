package main

import (
	"fmt"
	"go/types"
	"math"
	"net/http"
	"reflect"
	"regexp"
	"regexp/syntax"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// ---- fmt ----

func (it *Interp) fmtArg(fr *Frame, spec string, verb byte, ifc Iface, depth int) Value {
	if ifc.t == nil {
		if verb == 'T' || verb == 'v' {
			return "<nil>"
		}
		return "%!" + string(verb) + "(<nil>)"
	}
	if verb == 'T' {
		return shortType(ifc.t)
	}
	if _, ok := ifc.v.(*Opaque); ok {
		return "<opaque>"
	}
	if verb == 'v' || verb == 's' || verb == 'q' || verb == 'x' || verb == 'X' || verb == 'w' {
		if !strings.Contains(spec, "#") {
			for _, m := range []string{"Error", "String"} {
				f := it.findMethodByName(ifc.t, m)
				if f == nil || f.Signature.Params().Len() != 0 || f.Signature.Results().Len() != 1 {
					continue
				}
				if b, ok := f.Signature.Results().At(0).Type().Underlying().(*types.Basic); !ok || b.Kind() != types.String {
					continue
				}
				if p, ok := ifc.v.(*Value); ok && p == nil {
					return "<nil>"
				}
				if p, ok := ifc.v.(*Value); ok {
					if _, op := (*p).(*Opaque); op {
						return "<opaque>"
					}
				}
				v := it.callFn(fr, f, []Value{ifc.v}, nil)
				if verb == 'w' {
					verb = 'v'
					spec = strings.Replace(spec, "w", "v", 1)
				}
				return it.fmtScalar(fr, spec, verb, v)
			}
		}
	}
	if verb == 'w' {
		return "%!w"
	}
	return it.fmtVal(fr, spec, verb, ifc.t, ifc.v, depth)
}

func (it *Interp) fmtScalar(fr *Frame, spec string, verb byte, v Value) Value {
	plain := len(spec) == 2
	switch v := v.(type) {
	case string:
		return fmt.Sprintf(spec, v)
	case bool:
		return fmt.Sprintf(spec, v)
	case int64:
		return fmt.Sprintf(spec, v)
	case float64:
		return fmt.Sprintf(spec, v)
	case *SStr:
		if (verb == 's' || verb == 'v') && plain {
			return v
		}
		if verb == 'q' && plain {
			return it.concat(it.concat("\"", v), "\"")
		}
		s, ok := concBytes(it.pinBytes(it.flat(v)))
		if ok {
			return fmt.Sprintf(spec, s)
		}
	case *Term:
		if v.isBool() {
			if it.branch(v) {
				return fmt.Sprintf(spec, true)
			}
			return fmt.Sprintf(spec, false)
		}
		if (verb == 'd' || verb == 'v') && plain {
			return it.decStr(v)
		}
		if n := len(spec); verb == 'd' && n == 4 && spec[1] == '0' && spec[2] > '0' && spec[2] <= '9' {
			if it.branch(it.ts.Not(it.ts.Lt(v, it.ts.Big(pow10[spec[2]-'1'])))) {
				return it.decStr(v)
			}
		}
		return fmt.Sprintf(spec, it.pin(v))
	case *FInt:
		if spec == "%.0f" || spec == "%v" || spec == "%g" {
			lo, hi := it.ts.interval(v.t, it.p.bounds)
			if spec == "%.0f" || lo != nil && hi != nil && hi.CmpAbs(bigI(1<<20)) <= 0 && lo.CmpAbs(bigI(1<<20)) <= 0 {
				return it.decStr(it.simp(v.t))
			}
		}
		return fmt.Sprintf(spec, float64(it.pin(v.t)))
	}
	it.unsupported(fr, "fmt %s of %T", spec, v)
	return nil
}

func (it *Interp) pinBytes(b []Value) []Value {
	out := make([]Value, len(b))
	for i, x := range b {
		if t, ok := x.(*Term); ok {
			out[i] = it.pin(t)
		} else {
			out[i] = x
		}
	}
	return out
}

func (it *Interp) fmtVal(fr *Frame, spec string, verb byte, t types.Type, v Value, depth int) Value {
	if depth > 6 {
		return "..."
	}
	switch u := t.Underlying().(type) {
	case *types.Basic:
		if k, ok := intKind(t); ok && !k.signed {
			if i, ok := v.(int64); ok {
				return fmt.Sprintf(spec, uint64(i))
			}
		}
		return it.fmtScalar(fr, spec, verb, v)
	case *types.Pointer:
		p, _ := v.(*Value)
		if p == nil {
			return "<nil>"
		}
		if depth > 0 || verb == 'p' {
			return "0xc000000000"
		}
		return it.concat("&", it.fmtVal(fr, spec, verb, u.Elem(), *p, depth+1))
	case *types.Interface:
		return it.fmtArg(fr, spec, verb, v.(Iface), depth+1)
	case *types.Slice, *types.Array:
		var el types.Type
		var a []Value
		if s, ok := u.(*types.Slice); ok {
			el = s.Elem()
			a = v.(Slice).a
		} else {
			el = u.(*types.Array).Elem()
			a = v.(Array)
		}
		if b, ok := el.Underlying().(*types.Basic); ok && b.Kind() == types.Uint8 && (verb == 's' || verb == 'x' || verb == 'q' || verb == 'X') {
			if verb == 's' && len(spec) == 2 {
				return bytesToStr(a)
			}
			if s, ok := concBytes(a); ok {
				return fmt.Sprintf(spec, []byte(s))
			}
			it.unsupported(fr, "fmt %s of symbolic bytes", spec)
		}
		var r Value = "["
		for i, x := range a {
			if i > 0 {
				r = it.concat(r, " ")
			}
			r = it.concat(r, it.fmtArg(fr, spec, verb, Iface{el, x}, depth+1))
		}
		return it.concat(r, "]")
	case *types.Struct:
		var r Value = "{"
		s, ok := v.(Struct)
		if !ok {
			return "{?}"
		}
		for i, x := range s {
			if i > 0 {
				r = it.concat(r, " ")
			}
			if strings.Contains(spec, "+") {
				r = it.concat(r, u.Field(i).Name()+":")
			}
			if !u.Field(i).Exported() {
				r = it.concat(r, it.fmtVal(fr, spec, verb, u.Field(i).Type(), x, depth+1))
				continue
			}
			r = it.concat(r, it.fmtArg(fr, spec, verb, Iface{u.Field(i).Type(), x}, depth+1))
		}
		return it.concat(r, "}")
	case *types.Map:
		m, _ := v.(*MapV)
		var r Value = "map["
		if m != nil {
			first := true
			for _, e := range m.ents {
				if e.dead {
					continue
				}
				if !first {
					r = it.concat(r, " ")
				}
				first = false
				r = it.concat(r, it.fmtArg(fr, spec, verb, Iface{u.Key(), e.k}, depth+1))
				r = it.concat(r, ":")
				r = it.concat(r, it.fmtArg(fr, spec, verb, Iface{u.Elem(), e.v}, depth+1))
			}
		}
		return it.concat(r, "]")
	case *types.Signature, *types.Chan:
		return "0xc000000000"
	}
	return "?"
}

func (it *Interp) sprintf(fr *Frame, format Value, args []Value) (Value, []Iface) {
	f, ok := format.(string)
	if !ok {
		it.unsupported(fr, "symbolic format string")
	}
	var out Value = ""
	var wrapped []Iface
	n := 0
	for i := 0; i < len(f); {
		j := strings.IndexByte(f[i:], '%')
		if j < 0 {
			out = it.concat(out, f[i:])
			break
		}
		out = it.concat(out, f[i:i+j])
		i += j
		k := i + 1
		for k < len(f) && strings.IndexByte("+-# 0123456789.*[]", f[k]) >= 0 {
			k++
		}
		if k >= len(f) {
			out = it.concat(out, "%!(NOVERB)")
			break
		}
		spec, verb := f[i:k+1], f[k]
		i = k + 1
		if verb == '%' {
			out = it.concat(out, "%")
			continue
		}
		if n >= len(args) {
			out = it.concat(out, "%!"+string(verb)+"(MISSING)")
			continue
		}
		a, _ := args[n].(Iface)
		n++
		if verb == 'w' {
			wrapped = append(wrapped, a)
		}
		out = it.concat(out, it.fmtArg(fr, spec, verb, a, 0))
	}
	return out, wrapped
}

func (it *Interp) sprint(fr *Frame, args []Value, ln bool) Value {
	var out Value = ""
	isStr := func(v Value) bool {
		a, _ := v.(Iface)
		if a.t == nil {
			return false
		}
		b, ok := a.t.Underlying().(*types.Basic)
		return ok && b.Kind() == types.String
	}
	for i, x := range args {
		a, _ := x.(Iface)
		if i > 0 && (ln || !isStr(x) && !isStr(args[i-1])) {
			out = it.concat(out, " ")
		}
		out = it.concat(out, it.fmtArg(fr, "%v", 'v', a, 0))
	}
	if ln {
		out = it.concat(out, "\n")
	}
	return out
}

func sliceArgs(v Value) []Value {
	s, _ := v.(Slice)
	return s.a
}

func (it *Interp) writeTo(fr *Frame, w Iface, s Value) Value {
	if w.t == nil {
		it.rtPanic(fr, "invalid memory address or nil pointer dereference")
	}
	if _, ok := w.v.(*Opaque); ok {
		return Tuple{int64(0), Iface{}}
	}
	// prefer string writers that keep lazy pieces
	if hasLazy(s) {
		if f := it.findMethodByName(w.t, "WriteString"); f != nil {
			return it.callFn(fr, f, []Value{w.v, s}, nil)
		}
	}
	return it.callMethod(fr, w, "Write", Slice{it.strBytes(fr, s)})
}

func init() {
	reg := func(name string, f intrinsic) { intrinsics[name] = f }
	reg("fmt.Sprintf", func(it *Interp, fr *Frame, fn *ssa.Function, a []Value) Value {
		v, _ := it.sprintf(fr, a[0], sliceArgs(a[1]))
		return v
	})
	reg("fmt.Sprint", func(it *Interp, fr *Frame, fn *ssa.Function, a []Value) Value {
		return it.sprint(fr, sliceArgs(a[0]), false)
	})
	reg("fmt.Sprintln", func(it *Interp, fr *Frame, fn *ssa.Function, a []Value) Value {
		return it.sprint(fr, sliceArgs(a[0]), true)
	})
	reg("context.WithValue", func(it *Interp, fr *Frame, fn *ssa.Function, a []Value) Value {
		if a[0].(Iface).t == nil {
			panic(targetPanic{Iface{types.Typ[types.String], "cannot create context from nil parent"}, it.where(fr)})
		}
		if a[1].(Iface).t == nil {
			panic(targetPanic{Iface{types.Typ[types.String], "nil key"}, it.where(fr)})
		}
		p := new(Value)
		*p = Struct{a[0], a[1], a[2]}
		return Iface{types.NewPointer(it.e.stdType("context", "valueCtx")), p}
	})
	reg("fmt.Errorf", func(it *Interp, fr *Frame, fn *ssa.Function, a []Value) Value {
		msg, w := it.sprintf(fr, a[0], sliceArgs(a[1]))
		mk := func(name string, fields ...Value) Value {
			t := it.e.stdType("fmt", name)
			p := new(Value)
			*p = Struct(fields)
			return Iface{types.NewPointer(t), p}
		}
		switch len(w) {
		case 0:
			return it.errVal(fr, msg)
		case 1:
			return mk("wrapError", msg, w[0])
		}
		var es []Value
		for _, e := range w {
			es = append(es, e)
		}
		return mk("wrapErrors", msg, Slice{es})
	})
	reg("(*flag.FlagSet).PrintDefaults", func(it *Interp, fr *Frame, fn *ssa.Function, a []Value) Value { return nil })
	reg("fmt.Fprintf", func(it *Interp, fr *Frame, fn *ssa.Function, a []Value) Value {
		v, _ := it.sprintf(fr, a[1], sliceArgs(a[2]))
		return it.writeTo(fr, a[0].(Iface), v)
	})
	reg("fmt.Fprint", func(it *Interp, fr *Frame, fn *ssa.Function, a []Value) Value {
		return it.writeTo(fr, a[0].(Iface), it.sprint(fr, sliceArgs(a[1]), false))
	})
	reg("fmt.Fprintln", func(it *Interp, fr *Frame, fn *ssa.Function, a []Value) Value {
		return it.writeTo(fr, a[0].(Iface), it.sprint(fr, sliceArgs(a[1]), true))
	})
	for _, n := range []string{"fmt.Printf", "fmt.Print", "fmt.Println"} {
		reg(n, func(it *Interp, fr *Frame, fn *ssa.Function, a []Value) Value { return Tuple{int64(0), Iface{}} })
	}

	// ---- regexp ----
	mkre := func(re *regexp.Regexp) *Value {
		p := new(Value)
		*p = &NativeObj{"regexp", re}
		return p
	}
	comp := func(must bool) intrinsic {
		return func(it *Interp, fr *Frame, fn *ssa.Function, a []Value) Value {
			s, ok := a[0].(string)
			if !ok {
				b := it.flat(a[0])
				if it.allASCII(a[0]) && len(b) <= 24 {
					// fork over the pattern's bytes: patterns are small and
					// come from a small alphabet in every harness
					var bs []Value
					for _, x := range b {
						bs = append(bs, it.concInt(x))
					}
					s, _ = concBytes(bs)
				} else {
					it.unsupported(fr, "symbolic regular expression")
				}
			}
			re, err := regexp.Compile(s)
			if err != nil {
				if must {
					panic(targetPanic{it.rtErrorPlain("regexp: Compile(" + s + "): " + err.Error()), it.where(fr)})
				}
				return Tuple{(*Value)(nil), it.errVal(fr, err.Error())}
			}
			if must {
				return mkre(re)
			}
			return Tuple{mkre(re), Iface{}}
		}
	}
	reg("regexp.Compile", comp(false))
	reg("regexp.MustCompile", comp(true))
	getre := func(it *Interp, fr *Frame, v Value) *regexp.Regexp {
		p := it.nilDeref(fr, pv(v))
		if o, ok := (*p).(*NativeObj); ok {
			return o.o.(*regexp.Regexp)
		}
		it.unsupported(fr, "regexp is %T", *p)
		return nil
	}
	reg("regexp.MatchString", func(it *Interp, fr *Frame, fn *ssa.Function, a []Value) Value {
		r := comp(false)(it, fr, fn, a[:1]).(Tuple)
		if r[1].(Iface).t != nil {
			return Tuple{false, r[1]}
		}
		return Tuple{it.reMatch(fr, getre(it, fr, r[0]), a[1]), Iface{}}
	})
	reg("(*regexp.Regexp).MatchString", func(it *Interp, fr *Frame, fn *ssa.Function, a []Value) Value {
		return it.reMatch(fr, getre(it, fr, a[0]), a[1])
	})
	reg("(*regexp.Regexp).Match", func(it *Interp, fr *Frame, fn *ssa.Function, a []Value) Value {
		return it.reMatch(fr, getre(it, fr, a[0]), bytesToStr(a[1].(Slice).a))
	})
	for _, m := range []string{"String", "FindString", "FindStringIndex", "FindStringSubmatch", "FindStringSubmatchIndex", "FindAllString",
		"FindAllStringSubmatch", "FindAllStringSubmatchIndex", "ReplaceAllString", "ReplaceAllLiteralString", "NumSubexp", "SubexpNames", "SubexpIndex", "Split", "FindAllStringIndex", "FindSubmatch", "FindIndex"} {
		m := m
		reg("(*regexp.Regexp)."+m, func(it *Interp, fr *Frame, fn *ssa.Function, a []Value) Value {
			re := getre(it, fr, a[0])
			f := reflect.ValueOf(re).MethodByName(m)
			if v, ok := callNative(f, a[1:]); ok {
				return v
			}
			// pin symbolic strings
			as := append([]Value{}, a[1:]...)
			for i, x := range as {
				if s, ok := x.(*SStr); ok {
					bs := it.flat(s)
					cs := make([]Value, len(bs))
					for j := range bs {
						cs[j] = it.concInt(bs[j])
					}
					as[i], _ = concBytes(cs)
				}
			}
			if v, ok := callNative(f, as); ok {
				return v
			}
			it.unsupported(fr, "regexp %s", m)
			return nil
		})
	}
}

var reCache = map[string]*syntax.Prog{}

// reMatch decides whether the regular expression matches the (possibly
// symbolic) subject: the NFA of the expression is unrolled over the subject's
// bytes and acceptance becomes one boolean term.
func (it *Interp) reMatch(fr *Frame, re *regexp.Regexp, subj Value) Value {
	if s, ok := subj.(string); ok {
		return re.MatchString(s)
	}
	if !it.allASCII(subj) {
		bs := it.flat(subj)
		ascii := true
		for i := range bs {
			switch v := bs[i].(type) {
			case *Term:
				ascii = it.branch(it.ts.Lt(v, it.ts.Int(0x80))) && ascii
			case int64:
				ascii = ascii && v < 0x80
			}
		}
		if !ascii {
			// decide concretely, byte by byte
			cs := make([]Value, len(bs))
			for i := range bs {
				cs[i] = bs[i]
				if t, ok := bs[i].(*Term); ok {
					cs[i] = it.concretize(t)
				}
			}
			s, _ := concBytes(cs)
			return re.MatchString(s)
		}
	}
	rx, err := syntax.Parse(re.String(), syntax.Perl)
	if err != nil {
		it.unsupported(fr, "regexp parse: %v", err)
	}
	prog, err := syntax.Compile(rx.Simplify())
	if err != nil {
		it.unsupported(fr, "regexp compile: %v", err)
	}
	ts := it.ts
	b := it.flat(subj)
	n := len(b)
	word := func(i int) *Term {
		if i < 0 || i >= n {
			return ts.False
		}
		return it.inRanges(b[i], []rune{'0', '9', 'A', 'Z', '_', '_', 'a', 'z'})
	}
	nl := func(i int) *Term { return it.inRanges(b[i], []rune{'\n', '\n'}) }
	cond := func(e syntax.EmptyOp, pos int) *Term {
		r := ts.True
		if e&syntax.EmptyBeginText != 0 && pos != 0 {
			return ts.False
		}
		if e&syntax.EmptyEndText != 0 && pos != n {
			return ts.False
		}
		if e&syntax.EmptyBeginLine != 0 && pos != 0 {
			r = ts.And(r, nl(pos-1))
		}
		if e&syntax.EmptyEndLine != 0 && pos != n {
			r = ts.And(r, nl(pos))
		}
		if e&(syntax.EmptyWordBoundary|syntax.EmptyNoWordBoundary) != 0 {
			x, y := word(pos-1), word(pos)
			diff := ts.Or(ts.And(x, ts.Not(y)), ts.And(ts.Not(x), y))
			if e&syntax.EmptyWordBoundary != 0 {
				r = ts.And(r, diff)
			} else {
				r = ts.And(r, ts.Not(diff))
			}
		}
		return r
	}
	accept := ts.False
	// closure adds the epsilon closure of pc under condition c
	var add func(set map[uint32]*Term, pc uint32, pos int, c *Term, depth int)
	add = func(set map[uint32]*Term, pc uint32, pos int, c *Term, depth int) {
		if c == ts.False {
			return
		}
		old, ok := set[pc]
		if ok {
			nw := ts.Or(old, c)
			if nw == old {
				return
			}
			c2 := c
			set[pc] = nw
			c = c2
			if depth > 200 {
				return
			}
		} else {
			set[pc] = c
		}
		in := &prog.Inst[pc]
		switch in.Op {
		case syntax.InstAlt, syntax.InstAltMatch:
			add(set, in.Out, pos, c, depth+1)
			add(set, in.Arg, pos, c, depth+1)
		case syntax.InstCapture, syntax.InstNop:
			add(set, in.Out, pos, c, depth+1)
		case syntax.InstEmptyWidth:
			add(set, in.Out, pos, ts.And(c, cond(syntax.EmptyOp(in.Arg), pos)), depth+1)
		}
	}
	cur := map[uint32]*Term{}
	for pos := 0; ; pos++ {
		// unanchored search: a match may start anywhere
		add(cur, uint32(prog.Start), pos, ts.True, 0)
		next := map[uint32]*Term{}
		for pc := uint32(0); int(pc) < len(prog.Inst); pc++ {
			c, ok := cur[pc]
			if !ok {
				continue
			}
			in := &prog.Inst[pc]
			switch in.Op {
			case syntax.InstMatch:
				accept = ts.Or(accept, c)
			case syntax.InstRune, syntax.InstRune1, syntax.InstRuneAny, syntax.InstRuneAnyNotNL:
				if pos < n {
					add(next, in.Out, pos+1, ts.And(c, it.runeCond(in, b[pos])), 0)
				}
			}
		}
		if pos == n {
			break
		}
		cur = next
	}
	return it.simp(accept)
}

func (it *Interp) inRanges(b Value, rs []rune) *Term {
	ts := it.ts
	if c, ok := b.(int64); ok {
		for i := 0; i+1 < len(rs); i += 2 {
			if rune(c) >= rs[i] && rune(c) <= rs[i+1] {
				return ts.True
			}
		}
		return ts.False
	}
	t := b.(*Term)
	var cs []*Term
	for i := 0; i+1 < len(rs); i += 2 {
		if rs[i] == rs[i+1] {
			cs = append(cs, ts.Eq(t, ts.Int(int64(rs[i]))))
		} else {
			cs = append(cs, ts.And(ts.Le(ts.Int(int64(rs[i])), t), ts.Le(t, ts.Int(int64(rs[i+1])))))
		}
	}
	return ts.Or(cs...)
}

func (it *Interp) runeCond(in *syntax.Inst, b Value) *Term {
	if c, ok := b.(int64); ok {
		return it.ts.Bool(in.MatchRune(rune(c)))
	}
	// tabulate over ASCII
	var rs []rune
	for c := rune(0); c < 128; c++ {
		if in.MatchRune(c) {
			if n := len(rs); n > 0 && rs[n-1] == c-1 {
				rs[n-1] = c
			} else {
				rs = append(rs, c, c)
			}
		}
	}
	return it.inRanges(b, rs)
}

var _ = math.Inf
var _ = http.StatusOK
