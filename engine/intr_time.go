package main

import (
	"fmt"
	"go/types"
	"math/big"
	"net/http"
	"time"

	"golang.org/x/tools/go/ssa"
)

// Virtual time. The clock starts at 2000-01-01 00:00:00 UTC (as inside a
// testing/synctest bubble) and advances only when every goroutine is blocked.

const secYear1To2000 = 63082281600 // seconds from 0001-01-01 to 2000-01-01
const unixToInternal = 62135596800

// timeVal builds a time.Time (struct wall, ext, loc) from the seconds since
// year 1 and nanoseconds.
func timeVal(sec, nsec Value) Struct {
	return Struct{nsec, sec, (*Value)(nil)}
}

func (it *Interp) nowVal() Value {
	switch n := it.p.now.(type) {
	case int64:
		s := n / 1e9
		ns := n % 1e9
		return timeVal(s+secYear1To2000, ns)
	case *Term:
		ts := it.ts
		g := big.NewInt(1e9)
		s := ts.DivC(n, g, it.p.bounds)
		return timeVal(it.simp(ts.Add(s, ts.Int(secYear1To2000))), it.simp(ts.ModC(n, g, it.p.bounds)))
	}
	panic(engineErr{"clock", ""})
}

func goTimeVal(t time.Time) Struct {
	return timeVal(t.Unix()+unixToInternal, int64(t.Nanosecond()))
}

// unixOf extracts the unix seconds of a time value without location.
func (it *Interp) unixOf(v Value) (sec Value, nsec Value, ok bool) {
	s, isS := v.(Struct)
	if !isS || len(s) != 3 {
		return nil, nil, false
	}
	if w, isI := s[0].(int64); isI && w>>63 != 0 {
		return nil, nil, false
	}
	switch e := s[1].(type) {
	case int64:
		sec = e - unixToInternal
	case *Term:
		sec = it.simp(it.ts.Sub(e, it.ts.Int(unixToInternal)))
	default:
		return nil, nil, false
	}
	return sec, s[0], true
}

func mkLazyTime(it *Interp, v Value, layout string) Value {
	switch v := v.(type) {
	case int64:
		return time.Unix(v, 0).UTC().Format(layout)
	case *Term:
		return &SStr{[]Seg{{l: &Lazy{'t', v, layout}}}}
	}
	panic(engineErr{"HTTPDate", ""})
}

func (it *Interp) decStr(v Value) Value {
	switch v := v.(type) {
	case int64:
		return fmt.Sprint(v)
	case *Term:
		return &SStr{[]Seg{{l: &Lazy{'d', v, ""}}}}
	}
	panic(engineErr{"Dec", ""})
}

func single(v Value) *Lazy {
	if s, ok := v.(*SStr); ok && len(s.segs) == 1 {
		return s.segs[0].l
	}
	return nil
}

func (it *Interp) isUTC(v Value) bool {
	s, ok := v.(Struct)
	if !ok {
		return false
	}
	p, ok := s[2].(*Value)
	if !ok {
		return false
	}
	if p == nil {
		return true
	}
	if g, ok := it.e.std["time"].Members["utcLoc"].(*ssa.Global); ok {
		return it.globals[g] == p
	}
	return false
}

func init() {
	reg := func(name string, f intrinsic) { intrinsics[name] = f }
	reg("time.Now", func(it *Interp, fr *Frame, fn *ssa.Function, a []Value) Value {
		if it.initing > 0 {
			return timeVal(int64(secYear1To2000), int64(0))
		}
		return it.nowVal()
	})
	reg("time.runtimeNano", func(it *Interp, fr *Frame, fn *ssa.Function, a []Value) Value { return int64(1) })
	reg("time.runtimeNow", func(it *Interp, fr *Frame, fn *ssa.Function, a []Value) Value {
		it.unsupported(fr, "time.runtimeNow")
		return nil
	})
	reg("time.Since", func(it *Interp, fr *Frame, fn *ssa.Function, a []Value) Value {
		return it.callFn(fr, it.e.stdFunc("time", "Time.Sub"), []Value{it.nowVal(), a[0]}, nil)
	})
	reg("time.Until", func(it *Interp, fr *Frame, fn *ssa.Function, a []Value) Value {
		return it.callFn(fr, it.e.stdFunc("time", "Time.Sub"), []Value{a[0], it.nowVal()}, nil)
	})
	reg("time.Sleep", func(it *Interp, fr *Frame, fn *ssa.Function, a []Value) Value {
		it.sleep(fr, a[0])
		return nil
	})
	reg("(*time.Location).get", func(it *Interp, fr *Frame, fn *ssa.Function, a []Value) Value {
		// every location is UTC
		g := it.e.std["time"].Members["utcLoc"].(*ssa.Global)
		if pv(a[0]) == nil {
			return it.global(fr, g)
		}
		return a[0]
	})
	reg("time.LoadLocation", func(it *Interp, fr *Frame, fn *ssa.Function, a []Value) Value {
		g := it.e.std["time"].Members["utcLoc"].(*ssa.Global)
		return Tuple{it.global(fr, g), Iface{}}
	})

	// timers
	newTimer := func(it *Interp, fr *Frame, t types.Type, d Value, period bool, f Value) *Value {
		p := new(Value)
		*p = zero(t)
		ch := &ChanV{cap: 1}
		st := &timerSt{ch: ch, f: f}
		if f == nil {
			*it.field(p, t, "C") = ch
		}
		if period {
			st.period = d
		}
		it.p.side[fmt.Sprintf("timer:%p", p)] = st
		it.armTimer(st, d)
		return p
	}
	reg("time.NewTimer", func(it *Interp, fr *Frame, fn *ssa.Function, a []Value) Value {
		return newTimer(it, fr, deref(fn.Signature.Results().At(0).Type()), a[0], false, nil)
	})
	reg("time.NewTicker", func(it *Interp, fr *Frame, fn *ssa.Function, a []Value) Value {
		if !it.less(int64(0), a[0]) {
			panic(targetPanic{it.rtErrorPlain("non-positive interval for NewTicker"), it.where(fr)})
		}
		return newTimer(it, fr, deref(fn.Signature.Results().At(0).Type()), a[0], true, nil)
	})
	reg("time.AfterFunc", func(it *Interp, fr *Frame, fn *ssa.Function, a []Value) Value {
		return newTimer(it, fr, deref(fn.Signature.Results().At(0).Type()), a[0], false, a[1])
	})
	reg("time.After", func(it *Interp, fr *Frame, fn *ssa.Function, a []Value) Value {
		ch := &ChanV{cap: 1}
		it.armTimer(&timerSt{ch: ch}, a[0])
		return ch
	})
	get := func(it *Interp, fr *Frame, v Value) *timerSt {
		st, _ := it.p.side[fmt.Sprintf("timer:%p", it.nilDeref(fr, pv(v)))].(*timerSt)
		if st == nil {
			panic(targetPanic{it.rtErrorPlain("time: Stop called on uninitialized Timer"), it.where(fr)})
		}
		return st
	}
	stop := func(it *Interp, fr *Frame, fn *ssa.Function, a []Value) Value {
		st := get(it, fr, a[0])
		it.schedPoint(fr, "timer")
		was := st.t.active || len(st.ch.buf) > 0
		st.t.active = false
		st.ch.buf = nil
		if fn.Signature.Results().Len() == 0 {
			return nil
		}
		return was
	}
	reg("(*time.Timer).Stop", stop)
	reg("(*time.Ticker).Stop", stop)
	reset := func(it *Interp, fr *Frame, fn *ssa.Function, a []Value) Value {
		st := get(it, fr, a[0])
		it.schedPoint(fr, "timer")
		was := st.t.active || len(st.ch.buf) > 0
		st.t.active = false
		st.ch.buf = nil
		if st.period != nil {
			st.period = a[1]
		}
		it.armTimer(st, a[1])
		if fn.Signature.Results().Len() == 0 {
			return nil
		}
		return was
	}
	reg("(*time.Timer).Reset", reset)
	reg("(*time.Ticker).Reset", reset)

	// parsing and formatting
	reg("time.ParseDuration", func(it *Interp, fr *Frame, fn *ssa.Function, a []Value) Value {
		switch s := a[0].(type) {
		case string:
			if d, err := time.ParseDuration(s); err == nil {
				return Tuple{int64(d), Iface{}}
			}
		case *SStr:
			// [-]digits followed by a one-letter unit
			if len(s.segs) == 2 && s.segs[0].l != nil && s.segs[0].l.kind == 'd' && s.segs[1].l == nil {
				unit, ok := concBytes(s.segs[1].b)
				mul := map[string]int64{"s": 1e9, "ms": 1e6, "us": 1e3, "ns": 1, "m": 60e9, "h": 3600e9}[unit]
				if ok && mul != 0 {
					t := s.segs[0].l.t
					lim := int64(9223372036854775807) / mul
					ts := it.ts
					// |n| * unit must fit; the magnitude 1<<63 ns itself is
					// only valid negated, and unreachable for units > 1ns
					in := ts.And(ts.Le(ts.Int(-lim), t), ts.Le(t, ts.Int(lim)))
					if it.branch(in) {
						return Tuple{it.simp(ts.MulC(t, big.NewInt(mul))), Iface{}}
					}
					return Tuple{int64(0), it.errVal(fr, "time: invalid duration")}
				}
			}
		}
		return it.runBody(fr, fn, a)
	})
	reg("time.Parse", func(it *Interp, fr *Frame, fn *ssa.Function, a []Value) Value {
		layout, ok := a[0].(string)
		if !ok {
			return it.runBody(fr, fn, a)
		}
		switch s := a[1].(type) {
		case string:
			if t, err := time.Parse(layout, s); err == nil && t.Location() == time.UTC {
				return Tuple{goTimeVal(t), Iface{}}
			}
		case *SStr:
			if l := single(a[1]); l != nil && l.kind == 't' {
				if l.layout == layout {
					return Tuple{timeVal(it.simp(it.ts.Add(l.t, it.ts.Int(unixToInternal))), int64(0)), Iface{}}
				}
				if knownDisjoint(l.layout, layout) {
					return Tuple{Struct{int64(0), int64(0), (*Value)(nil)}, it.errVal(fr, "time: cannot parse")}
				}
				if l.layout == http.TimeFormat && layout == time.RFC1123 {
					// "GMT" is accepted for MST and denotes UTC
					return Tuple{timeVal(it.simp(it.ts.Add(l.t, it.ts.Int(unixToInternal))), int64(0)), Iface{}}
				}
			}
			_ = s
		}
		return it.runBody(fr, fn, a)
	})
	reg("net/http.ParseTime", func(it *Interp, fr *Frame, fn *ssa.Function, a []Value) Value {
		if l := single(a[0]); l != nil && l.kind == 't' {
			return Tuple{timeVal(it.simp(it.ts.Add(l.t, it.ts.Int(unixToInternal))), int64(0)), Iface{}}
		}
		if s, ok := a[0].(string); ok {
			if t, err := http.ParseTime(s); err == nil {
				return Tuple{goTimeVal(t), Iface{}}
			}
		}
		return it.runBody(fr, fn, a)
	})
	reg("(time.Time).Format", func(it *Interp, fr *Frame, fn *ssa.Function, a []Value) Value {
		layout, ok := a[1].(string)
		if ok && it.isUTC(a[0]) {
			if sec, ns, ok := it.unixOf(a[0]); ok {
				if t, ok := sec.(*Term); ok && layout == http.TimeFormat {
					return mkLazyTime(it, t, layout)
				}
				s, ok1 := sec.(int64)
				n, ok2 := ns.(int64)
				if ok1 && ok2 {
					return time.Unix(s, n).UTC().Format(layout)
				}
			}
		}
		return it.runBody(fr, fn, a)
	})
}

type timerSt struct {
	t      *timer
	ch     *ChanV
	period Value
	f      Value
}

func (it *Interp) armTimer(st *timerSt, d Value) {
	if !it.less(int64(0), d) {
		d = int64(0)
	}
	st.t = it.addTimer(d, nil, func() {
		if st.f != nil {
			f := st.f
			g := it.newG("timer")
			it.tick(g)
			go it.gMain(g, func() { it.callValue(nil, f, nil) }, false)
			it.p.runq = append(it.p.runq, g)
			return
		}
		if w := it.popWaiter(&st.ch.recvq); w != nil {
			it.fire(w, it.nowVal(), true)
		} else if len(st.ch.buf) < 1 {
			st.ch.buf = append(st.ch.buf, chanMsg{v: it.nowVal()})
		}
		if st.period != nil {
			it.armTimer(st, st.period)
		}
	})
}

// knownDisjoint: no string formatted with one layout parses with the other.
func knownDisjoint(a, b string) bool {
	if a != http.TimeFormat {
		return false
	}
	switch b {
	case "Monday, 02-Jan-06 15:04:05 GMT", time.RFC850, time.ANSIC, time.RFC3339, time.RFC3339Nano, time.UnixDate, time.RubyDate, time.RFC1123Z, time.RFC822, time.RFC822Z:
		return true
	}
	return false
}
