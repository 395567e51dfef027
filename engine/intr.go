package main

import (
	"fmt"
	"go/types"
	"math/big"
	"strings"

	"golang.org/x/tools/go/ssa"
)

var intrinsics map[string]intrinsic

// asmGeneric maps functions without a Go body to their portable version.
var asmGeneric = map[string]string{
	"crypto/md5.block": "crypto/md5.blockGeneric",
	"math/big.addVV":   "math/big.addVV_g",
	"math.archFloor":   "math.floor",
	"math.archCeil":    "math.ceil",
	"math.archTrunc":   "math.trunc",
}

var kI64 = ikind{64, true}

func pv(v Value) *Value { p, _ := v.(*Value); return p }

func (it *Interp) nilDeref(fr *Frame, p *Value) *Value {
	if p == nil {
		it.rtPanic(fr, "invalid memory address or nil pointer dereference")
	}
	return p
}

// errVal builds an errors.New error.
func (it *Interp) errVal(fr *Frame, msg Value) Value {
	return it.callFn(fr, it.e.stdFunc("errors", "New"), []Value{msg}, nil)
}

// fieldIdx returns the index of a struct field by name.
func fieldIdx(t types.Type, name string) int {
	st, ok := deref(t).Underlying().(*types.Struct)
	if !ok {
		panic(engineErr{"not a struct: " + t.String(), ""})
	}
	for i := 0; i < st.NumFields(); i++ {
		if st.Field(i).Name() == name {
			return i
		}
	}
	panic(engineErr{"no field " + name + " in " + t.String(), ""})
}

func (it *Interp) field(p *Value, t types.Type, name string) *Value {
	s := (*p).(Struct)
	return &s[fieldIdx(t, name)]
}

func (it *Interp) goWake(gs *[]*G) {
	for _, g := range *gs {
		it.ready(g)
	}
	*gs = nil
}

func init() {
	intrinsics = map[string]intrinsic{}
	reg := func(name string, f intrinsic) { intrinsics[name] = f }
	nop := func(names ...string) {
		for _, n := range names {
			reg(n, func(it *Interp, fr *Frame, fn *ssa.Function, a []Value) Value {
				switch fn.Signature.Results().Len() {
				case 0:
					return nil
				}
				return zero(fn.Signature.Results())
			})
		}
	}

	// ---- sync ----
	reg("(*sync.Mutex).Lock", func(it *Interp, fr *Frame, fn *ssa.Function, a []Value) Value {
		it.lock(fr, it.nilDeref(fr, pv(a[0])))
		return nil
	})
	reg("(*sync.Mutex).Unlock", func(it *Interp, fr *Frame, fn *ssa.Function, a []Value) Value {
		it.unlock(fr, it.nilDeref(fr, pv(a[0])))
		return nil
	})
	reg("(*sync.Mutex).TryLock", func(it *Interp, fr *Frame, fn *ssa.Function, a []Value) Value {
		return it.tryLock(fr, it.nilDeref(fr, pv(a[0])))
	})
	intrinsics["(*internal/sync.Mutex).Lock"] = intrinsics["(*sync.Mutex).Lock"]
	intrinsics["(*internal/sync.Mutex).Unlock"] = intrinsics["(*sync.Mutex).Unlock"]
	intrinsics["(*internal/sync.Mutex).TryLock"] = intrinsics["(*sync.Mutex).TryLock"]
	intrinsics["(*sync.RWMutex).Lock"] = intrinsics["(*sync.Mutex).Lock"]
	intrinsics["(*sync.RWMutex).Unlock"] = intrinsics["(*sync.Mutex).Unlock"]
	intrinsics["(*sync.RWMutex).TryLock"] = intrinsics["(*sync.Mutex).TryLock"]
	reg("(*sync.RWMutex).RLock", func(it *Interp, fr *Frame, fn *ssa.Function, a []Value) Value {
		it.rlock(fr, it.nilDeref(fr, pv(a[0])))
		return nil
	})
	reg("(*sync.RWMutex).RUnlock", func(it *Interp, fr *Frame, fn *ssa.Function, a []Value) Value {
		it.runlock(fr, it.nilDeref(fr, pv(a[0])))
		return nil
	})
	reg("(*sync.RWMutex).TryRLock", func(it *Interp, fr *Frame, fn *ssa.Function, a []Value) Value {
		m := it.mutex(it.nilDeref(fr, pv(a[0])))
		it.schedPoint(fr, "tryrlock")
		if m.locked || m.wwait > 0 {
			return false
		}
		m.readers++
		it.acquire(m.clk)
		return true
	})
	reg("(*sync.Once).Do", func(it *Interp, fr *Frame, fn *ssa.Function, a []Value) Value {
		it.onceDo(fr, it.nilDeref(fr, pv(a[0])), a[1])
		return nil
	})
	wg := func(it *Interp, p *Value) *wgSt {
		w := it.p.wgs[p]
		if w == nil {
			w = &wgSt{}
			it.p.wgs[p] = w
		}
		return w
	}
	wgAdd := func(it *Interp, fr *Frame, p *Value, d int64) {
		w := wg(it, it.nilDeref(fr, p))
		it.schedPoint(fr, "wg")
		if d < 0 {
			it.release(&w.clk)
		}
		w.n += d
		if w.n < 0 {
			panic(targetPanic{it.rtErrorPlain("sync: negative WaitGroup counter"), it.where(fr)})
		}
		if w.n == 0 {
			it.goWake(&w.waiters)
		}
	}
	reg("(*sync.WaitGroup).Add", func(it *Interp, fr *Frame, fn *ssa.Function, a []Value) Value {
		wgAdd(it, fr, pv(a[0]), it.concInt(a[1]))
		return nil
	})
	reg("(*sync.WaitGroup).Done", func(it *Interp, fr *Frame, fn *ssa.Function, a []Value) Value {
		wgAdd(it, fr, pv(a[0]), -1)
		return nil
	})
	reg("(*sync.WaitGroup).Wait", func(it *Interp, fr *Frame, fn *ssa.Function, a []Value) Value {
		w := wg(it, it.nilDeref(fr, pv(a[0])))
		it.schedPoint(fr, "wgwait")
		for w.n > 0 {
			w.waiters = append(w.waiters, it.p.cur)
			it.block(fr, "waitgroup")
		}
		it.acquire(w.clk)
		return nil
	})
	reg("(*sync.WaitGroup).Go", func(it *Interp, fr *Frame, fn *ssa.Function, a []Value) Value {
		p := pv(a[0])
		wgAdd(it, fr, p, 1)
		f := a[1]
		it.spawn(fr, &Native{"wg.Go", func(it *Interp, fr *Frame, _ []Value) Value {
			it.callValue(fr, f, nil)
			wgAdd(it, fr, p, -1)
			return nil
		}}, nil)
		return nil
	})
	reg("sync.NewCond", func(it *Interp, fr *Frame, fn *ssa.Function, a []Value) Value {
		t := deref(fn.Signature.Results().At(0).Type())
		p := new(Value)
		*p = zero(t)
		*it.field(p, t, "L") = a[0]
		return p
	})
	cond := func(it *Interp, p *Value) *condSt {
		c := it.p.conds[p]
		if c == nil {
			c = &condSt{}
			it.p.conds[p] = c
		}
		return c
	}
	reg("(*sync.Cond).Wait", func(it *Interp, fr *Frame, fn *ssa.Function, a []Value) Value {
		p := it.nilDeref(fr, pv(a[0]))
		c := cond(it, p)
		l := (*it.field(p, fn.Signature.Recv().Type(), "L")).(Iface)
		g := it.p.cur
		c.waiters = append(c.waiters, g)
		g.fired = false
		it.callMethod(fr, l, "Unlock")
		for !g.fired {
			it.block(fr, "cond wait")
		}
		it.acquire(c.clk)
		it.callMethod(fr, l, "Lock")
		return nil
	})
	reg("(*sync.Cond).Signal", func(it *Interp, fr *Frame, fn *ssa.Function, a []Value) Value {
		c := cond(it, it.nilDeref(fr, pv(a[0])))
		it.schedPoint(fr, "signal")
		it.release(&c.clk)
		if len(c.waiters) > 0 {
			g := c.waiters[0]
			c.waiters = c.waiters[1:]
			g.fired = true
			it.ready(g)
		}
		return nil
	})
	reg("(*sync.Cond).Broadcast", func(it *Interp, fr *Frame, fn *ssa.Function, a []Value) Value {
		c := cond(it, it.nilDeref(fr, pv(a[0])))
		it.schedPoint(fr, "broadcast")
		it.release(&c.clk)
		for _, g := range c.waiters {
			g.fired = true
			it.ready(g)
		}
		c.waiters = nil
		return nil
	})
	reg("(*sync.Pool).Get", func(it *Interp, fr *Frame, fn *ssa.Function, a []Value) Value {
		p := it.nilDeref(fr, pv(a[0]))
		if st := it.p.pools[p]; st != nil && len(st.items) > 0 {
			// The last item put comes back: reuse is what may go wrong.
			x := st.items[len(st.items)-1]
			st.items = st.items[:len(st.items)-1]
			it.acquire(x.clk)
			return x.v
		}
		nw := *it.field(p, fn.Signature.Recv().Type(), "New")
		if c, ok := nw.(*Closure); ok && c == nil {
			return Iface{}
		}
		return it.callValue(fr, nw, nil)
	})
	reg("(*sync.Pool).Put", func(it *Interp, fr *Frame, fn *ssa.Function, a []Value) Value {
		p := it.nilDeref(fr, pv(a[0]))
		if x, ok := a[1].(Iface); ok && x.t != nil {
			st := it.p.pools[p]
			if st == nil {
				st = &poolSt{}
				it.p.pools[p] = st
			}
			i := poolItem{v: x}
			it.release(&i.clk)
			st.items = append(st.items, i)
		}
		return nil
	})
	// sync.Map
	smap := func(it *Interp, fr *Frame, v Value) *MapV {
		p := it.nilDeref(fr, pv(v))
		k := fmt.Sprintf("smap:%p", p)
		m, _ := it.p.side[k].(*MapV)
		if m == nil {
			m = newMap()
			it.p.side[k] = m
		}
		if it.p.atoms[p] == nil {
			it.p.atoms[p] = &atomSt{}
		}
		it.schedPoint(fr, "sync.Map")
		it.acquire(it.p.atoms[p].clk)
		it.release(&it.p.atoms[p].clk)
		return m
	}
	norace := func(it *Interp, f func()) {
		r := it.p.race
		it.p.race = nil
		defer func() { it.p.race = r }()
		f()
	}
	reg("(*sync.Map).Load", func(it *Interp, fr *Frame, fn *ssa.Function, a []Value) Value {
		if e := it.mapFind(fr, smap(it, fr, a[0]), a[1]); e != nil {
			return Tuple{e.v, true}
		}
		return Tuple{Iface{}, false}
	})
	reg("(*sync.Map).Store", func(it *Interp, fr *Frame, fn *ssa.Function, a []Value) Value {
		m := smap(it, fr, a[0])
		norace(it, func() { it.mapSet(fr, m, a[1], a[2]) })
		return nil
	})
	reg("(*sync.Map).Delete", func(it *Interp, fr *Frame, fn *ssa.Function, a []Value) Value {
		m := smap(it, fr, a[0])
		norace(it, func() { it.mapDelete(fr, m, a[1]) })
		return nil
	})
	reg("(*sync.Map).LoadOrStore", func(it *Interp, fr *Frame, fn *ssa.Function, a []Value) Value {
		m := smap(it, fr, a[0])
		if e := it.mapFind(fr, m, a[1]); e != nil {
			return Tuple{e.v, true}
		}
		norace(it, func() { it.mapSet(fr, m, a[1], a[2]) })
		return Tuple{a[2], false}
	})
	reg("(*sync.Map).LoadAndDelete", func(it *Interp, fr *Frame, fn *ssa.Function, a []Value) Value {
		m := smap(it, fr, a[0])
		if e := it.mapFind(fr, m, a[1]); e != nil {
			v := e.v
			norace(it, func() { it.mapDelete(fr, m, a[1]) })
			return Tuple{v, true}
		}
		return Tuple{Iface{}, false}
	})
	reg("(*sync.Map).Range", func(it *Interp, fr *Frame, fn *ssa.Function, a []Value) Value {
		m := smap(it, fr, a[0])
		for _, e := range append([]*mapEnt{}, m.ents...) {
			if !e.dead && !it.truth(it.callValue(fr, a[1], []Value{e.k, e.v})) {
				break
			}
		}
		return nil
	})

	// ---- sync/atomic ----
	type aop func(it *Interp, fr *Frame, p *Value, a []Value, k ikind) Value
	at := func(it *Interp, fr *Frame, p *Value) {
		it.nilDeref(fr, p)
		if it.initing > 0 {
			return
		}
		it.schedPoint(fr, "atomic")
		if it.p.race != nil {
			s := it.p.atoms[p]
			if s == nil {
				s = &atomSt{}
				it.p.atoms[p] = s
			}
			it.acquire(s.clk)
			it.release(&s.clk)
		}
	}
	ops := map[string]aop{
		"Load":  func(it *Interp, fr *Frame, p *Value, a []Value, k ikind) Value { return *p },
		"Store": func(it *Interp, fr *Frame, p *Value, a []Value, k ikind) Value { *p = a[1]; return nil },
		"Swap":  func(it *Interp, fr *Frame, p *Value, a []Value, k ikind) Value { o := *p; *p = a[1]; return o },
		"CompareAndSwap": func(it *Interp, fr *Frame, p *Value, a []Value, k ikind) Value {
			if it.truth(it.equal(fr, *p, a[1])) {
				*p = a[2]
				return true
			}
			return false
		},
		"Add": func(it *Interp, fr *Frame, p *Value, a []Value, k ikind) Value {
			x, ok1 := (*p).(int64)
			y, ok2 := a[1].(int64)
			if ok1 && ok2 {
				*p = k.norm(x + y)
			} else {
				*p = it.wrap(it.ts.Add(it.toTerm(*p, k), it.toTerm(a[1], k)), k)
			}
			return *p
		},
		"And": func(it *Interp, fr *Frame, p *Value, a []Value, k ikind) Value {
			o := *p
			*p = it.concInt(o) & it.concInt(a[1])
			return o
		},
		"Or": func(it *Interp, fr *Frame, p *Value, a []Value, k ikind) Value {
			o := *p
			*p = it.concInt(o) | it.concInt(a[1])
			return o
		},
	}
	kinds := map[string]ikind{"Int32": {32, true}, "Int64": {64, true}, "Uint32": {32, false}, "Uint64": {64, false}, "Uintptr": {64, false}, "Pointer": {}}
	for on, o := range ops {
		for kn, k := range kinds {
			o, k := o, k
			reg("sync/atomic."+on+kn, func(it *Interp, fr *Frame, fn *ssa.Function, a []Value) Value {
				p := pv(a[0])
				at(it, fr, p)
				return o(it, fr, p, a, k)
			})
		}
	}
	aval := func(on string) intrinsic {
		return func(it *Interp, fr *Frame, fn *ssa.Function, a []Value) Value {
			p := it.nilDeref(fr, pv(a[0]))
			at(it, fr, p)
			f := it.field(p, fn.Signature.Recv().Type(), "v")
			switch on {
			case "Store", "Swap":
				if v, ok := a[1].(Iface); ok && v.t == nil {
					panic(targetPanic{it.rtErrorPlain("sync/atomic: store of nil value into Value"), it.where(fr)})
				}
			}
			switch on {
			case "Load":
				return *f
			case "Store":
				*f = a[1]
				return nil
			case "Swap":
				o := *f
				*f = a[1]
				return o
			}
			if it.truth(it.equal(fr, *f, a[1])) {
				*f = a[2]
				return true
			}
			return false
		}
	}
	for _, on := range []string{"Load", "Store", "Swap", "CompareAndSwap"} {
		reg("(*sync/atomic.Value)."+on, aval(on))
	}

	// ---- runtime ----
	nop("runtime.GC", "runtime.KeepAlive", "runtime.SetFinalizer", "runtime.LockOSThread", "runtime.UnlockOSThread",
		"runtime.Callers", "runtime.SetBlockProfileRate", "runtime.SetMutexProfileFraction", "runtime.AddCleanup",
		"runtime/debug.SetGCPercent", "runtime/debug.FreeOSMemory", "os/signal.Notify", "os/signal.Stop", "os/signal.Ignore",
		"runtime.ReadMemStats", "internal/godebug.setUpdate", "internal/godebug.registerMetric", "internal/godebug.setNewIncNonDefault")
	reg("runtime.Gosched", func(it *Interp, fr *Frame, fn *ssa.Function, a []Value) Value {
		it.yield(fr)
		return nil
	})
	for _, n := range []string{"runtime.NumCPU", "runtime.GOMAXPROCS"} {
		reg(n, func(it *Interp, fr *Frame, fn *ssa.Function, a []Value) Value { return int64(4) })
	}
	reg("runtime.NumGoroutine", func(it *Interp, fr *Frame, fn *ssa.Function, a []Value) Value {
		n := 0
		for _, g := range it.p.gs {
			if !g.done {
				n++
			}
		}
		return int64(n)
	})
	reg("runtime/debug.Stack", func(it *Interp, fr *Frame, fn *ssa.Function, a []Value) Value {
		return Slice{strVals("stack")}
	})
	ident := func(it *Interp, fr *Frame, fn *ssa.Function, a []Value) Value { return a[0] }
	reg("internal/abi.NoEscape", ident)
	reg("internal/abi.Escape", ident)
	reg("internal/stringslite.Clone", ident)
	reg("strings.Clone", ident)
	// godebug settings have the default value for the go version of go.mod
	reg("(*internal/godebug.Setting).Value", func(it *Interp, fr *Frame, fn *ssa.Function, a []Value) Value {
		st, ok := (*pv(a[0])).(Struct)
		if !ok {
			return ""
		}
		name, _ := st[0].(string)
		return it.e.godebug[strings.TrimPrefix(name, "#")]
	})
	nop("(*internal/godebug.Setting).IncNonDefault")

	reg("os.Exit", func(it *Interp, fr *Frame, fn *ssa.Function, a []Value) Value { panic(pathEnd{"exit"}) })
	reg("github.com/rs/zerolog/log.Fatal", func(it *Interp, fr *Frame, fn *ssa.Function, a []Value) Value { panic(pathEnd{"exit"}) })
	reg("(*github.com/rs/zerolog.Logger).Fatal", func(it *Interp, fr *Frame, fn *ssa.Function, a []Value) Value { panic(pathEnd{"exit"}) })
	panicLog := func(it *Interp, fr *Frame, fn *ssa.Function, a []Value) Value {
		panic(targetPanic{it.rtErrorPlain("log.Panic"), it.where(fr)})
	}
	reg("github.com/rs/zerolog/log.Panic", panicLog)
	reg("os.Getenv", func(it *Interp, fr *Frame, fn *ssa.Function, a []Value) Value {
		if s, ok := a[0].(string); ok {
			if v, ok := it.p.files["env:"+s]; ok {
				return v
			}
		}
		return ""
	})
	reg("os.LookupEnv", func(it *Interp, fr *Frame, fn *ssa.Function, a []Value) Value {
		if s, ok := a[0].(string); ok {
			if v, ok := it.p.files["env:"+s]; ok {
				return Tuple{v, true}
			}
		}
		return Tuple{"", false}
	})
	reg("syscall.Getenv", intrinsics["os.LookupEnv"])
	reg("os.Hostname", func(it *Interp, fr *Frame, fn *ssa.Function, a []Value) Value { return Tuple{"localhost", Iface{}} })

	reg("unique.Make", func(it *Interp, fr *Frame, fn *ssa.Function, a []Value) Value {
		ks, ok := it.keyStr(fr, a[0])
		if !ok {
			it.unsupported(fr, "unique.Make of a symbolic value")
		}
		k := it.typeKey(fn.Signature.Params().At(0).Type()) + ks
		p := it.uniq[k]
		if p == nil {
			p = new(Value)
			*p = copyVal(a[0])
			it.uniq[k] = p
		}
		return Struct{p}
	})

	// ---- errors ----
	reg("errors.Is", func(it *Interp, fr *Frame, fn *ssa.Function, a []Value) Value {
		return it.errorsIs(fr, a[0].(Iface), a[1].(Iface))
	})
	reg("errors.As", func(it *Interp, fr *Frame, fn *ssa.Function, a []Value) Value {
		tg := a[1].(Iface)
		if tg.t == nil {
			panic(targetPanic{it.rtErrorPlain("errors: target cannot be nil"), it.where(fr)})
		}
		el := deref(tg.t)
		return it.errorsAs(fr, a[0].(Iface), el, pv(tg.v))
	})

	// ---- vf: the harness interface ----
	vf := func(n string, f intrinsic) { reg(vfPkg+"."+n, f) }
	vf("Int", func(it *Interp, fr *Frame, fn *ssa.Function, a []Value) Value {
		return it.symInt(a[0].(string), "int", it.concInt(a[1]), it.concInt(a[2]))
	})
	vf("Byte", func(it *Interp, fr *Frame, fn *ssa.Function, a []Value) Value {
		return it.symInt(a[0].(string), "int", it.concInt(a[1]), it.concInt(a[2]))
	})
	vf("Bool", func(it *Interp, fr *Frame, fn *ssa.Function, a []Value) Value {
		p := it.p
		name := a[0].(string)
		n := p.nvar[name]
		p.nvar[name] = n + 1
		if n > 0 {
			name = fmt.Sprintf("%s#%d", name, n)
		}
		t := it.ts.BVar(name)
		p.inputs = append(p.inputs, Input{name: name, kind: "bool", t: t})
		return t
	})
	vf("Choose", func(it *Interp, fr *Frame, fn *ssa.Function, a []Value) Value {
		n := it.concInt(a[1])
		v := it.choose(int(n))
		it.p.inputs = append(it.p.inputs, Input{name: a[0].(string), kind: "choice", v: int64(v)})
		it.p.labels = append(it.p.labels, fmt.Sprintf("%s=%d", a[0], v))
		return int64(v)
	})
	vf("String", func(it *Interp, fr *Frame, fn *ssa.Function, a []Value) Value {
		return it.symString(fr, a[0].(string), it.concInt(a[1]), a[2].(string))
	})
	vf("Assume", func(it *Interp, fr *Frame, fn *ssa.Function, a []Value) Value {
		it.assume(a[0])
		return nil
	})
	vf("Assert", func(it *Interp, fr *Frame, fn *ssa.Function, a []Value) Value {
		msg, _ := a[1].(string)
		it.check(fr, a[0], msg)
		return nil
	})
	vf("Reach", func(it *Interp, fr *Frame, fn *ssa.Function, a []Value) Value {
		it.ensureModelFresh()
		it.p.reached[a[0].(string)] = true
		return nil
	})
	vf("Thorough", func(it *Interp, fr *Frame, fn *ssa.Function, a []Value) Value { return it.e.thorough })
	vf("Symbolic", func(it *Interp, fr *Frame, fn *ssa.Function, a []Value) Value { return true })
	vf("Advance", func(it *Interp, fr *Frame, fn *ssa.Function, a []Value) Value {
		it.sleep(fr, a[0])
		return nil
	})
	vf("Dec", func(it *Interp, fr *Frame, fn *ssa.Function, a []Value) Value { return it.decStr(a[0]) })
	vf("HTTPDate", func(it *Interp, fr *Frame, fn *ssa.Function, a []Value) Value {
		return mkLazyTime(it, a[0], "Mon, 02 Jan 2006 15:04:05 GMT")
	})
	vf("Explore", func(it *Interp, fr *Frame, fn *ssa.Function, a []Value) Value {
		it.p.explore = true
		it.p.explored = true
		it.p.preempt = int(it.concInt(a[0]))
		return nil
	})
	vf("StopExplore", func(it *Interp, fr *Frame, fn *ssa.Function, a []Value) Value {
		it.p.explore = false
		return nil
	})
	vf("DetectRaces", func(it *Interp, fr *Frame, fn *ssa.Function, a []Value) Value {
		if it.p.race == nil {
			it.p.race = &raceState{cells: map[*Value]*shadow{}}
		}
		return nil
	})
	vf("Yield", func(it *Interp, fr *Frame, fn *ssa.Function, a []Value) Value {
		it.yield(fr)
		return nil
	})
	vf("Wait", func(it *Interp, fr *Frame, fn *ssa.Function, a []Value) Value {
		it.quiesce(fr)
		return nil
	})
	vf("Observe", func(it *Interp, fr *Frame, fn *ssa.Function, a []Value) Value {
		it.p.observedV = append(it.p.observedV, Tuple{a[0], "=", a[1]})
		return nil
	})
	vf("ObserveInt", intrinsics[vfPkg+".Observe"])
	vf("ObserveBool", intrinsics[vfPkg+".Observe"])
	vf("SetFile", func(it *Interp, fr *Frame, fn *ssa.Function, a []Value) Value {
		it.p.files["/vf/"+a[0].(string)] = a[1]
		it.p.files["at:/vf/"+a[0].(string)] = it.nowVal()
		return "/vf/" + a[0].(string)
	})
	vf("RemoveFile", func(it *Interp, fr *Frame, fn *ssa.Function, a []Value) Value {
		delete(it.p.files, a[0].(string))
		return nil
	})
	vf("RealCodec", func(it *Interp, fr *Frame, fn *ssa.Function, a []Value) Value {
		it.p.realCodec = true
		return nil
	})
	vf("Known", func(it *Interp, fr *Frame, fn *ssa.Function, a []Value) Value {
		msg, _ := a[3].(string)
		id, _ := a[1].(string)
		it.check(fr, it.boolOp(fr, []Value{a[0], a[2]}, false), msg)
		bad := it.not(a[0])
		var m *evaluator
		switch b := bad.(type) {
		case bool:
			if !b {
				return nil
			}
			it.ensureModelFresh()
			m = it.p.model
		case *Term:
			r, mm := it.sat(b)
			if r != Sat {
				return nil
			}
			m = mm
		}
		p := it.p
		p.knownV = append(p.knownV, &Violation{Msg: msg, Kind: "known", KnownID: id, Where: it.where(fr), Inputs: it.inputVals(m),
			Trail: append([]Decision{}, p.trail...), Labels: append([]string{}, p.labels...), Sched: append([]int{}, p.schedule...), Explored: p.explored})
		return nil
	})
	vf("And", func(it *Interp, fr *Frame, fn *ssa.Function, a []Value) Value {
		return it.boolOp(fr, a[0].(Slice).a, true)
	})
	vf("Or", func(it *Interp, fr *Frame, fn *ssa.Function, a []Value) Value {
		return it.boolOp(fr, a[0].(Slice).a, false)
	})
	vf("Not", func(it *Interp, fr *Frame, fn *ssa.Function, a []Value) Value { return it.not(a[0]) })
	vf("Implies", func(it *Interp, fr *Frame, fn *ssa.Function, a []Value) Value {
		return it.boolOp(fr, []Value{it.not(a[0]), a[1]}, false)
	})
	vf("Ite", func(it *Interp, fr *Frame, fn *ssa.Function, a []Value) Value {
		switch c := a[0].(type) {
		case bool:
			if c {
				return a[1]
			}
			return a[2]
		case *Term:
			return it.simp(it.ts.Ite(c, it.toTerm(a[1], kI64), it.toTerm(a[2], kI64)))
		}
		panic(engineErr{"Ite", ""})
	})
	// Eq compares strings without forking where possible
	vf("StrEq", func(it *Interp, fr *Frame, fn *ssa.Function, a []Value) Value { return it.strEq(fr, a[0], a[1]) })
}

func (it *Interp) boolOp(fr *Frame, xs []Value, and bool) Value {
	var ts []*Term
	for _, x := range xs {
		switch x := x.(type) {
		case bool:
			if x != and {
				return x
			}
		case *Term:
			ts = append(ts, x)
		}
	}
	if and {
		return it.simp(it.ts.And(ts...))
	}
	return it.simp(it.ts.Or(ts...))
}

// quiesce lets all other goroutines run until they are blocked (without
// advancing virtual time), like synctest.Wait.
func (it *Interp) quiesce(fr *Frame) {
	p := it.p
	if len(p.runq) == 0 {
		return
	}
	self := p.cur
	p.runq = append(p.runq, self)
	self.quiet = true
	it.block(fr, "wait")
	self.quiet = false
}

func bigI(v int64) *big.Int { return big.NewInt(v) }

func (it *Interp) symInt(name, kind string, lo, hi int64) Value {
	p := it.p
	if lo == hi {
		p.inputs = append(p.inputs, Input{name: name, kind: kind, v: lo})
		return lo
	}
	t := it.newVar(name, bigI(lo), bigI(hi))
	p.inputs = append(p.inputs, Input{name: t.name, kind: kind, t: t})
	return t
}

// symString creates a string of n symbolic bytes drawn from an alphabet
// description: "a-z0-9/" (ranges and single characters).
func (it *Interp) symString(fr *Frame, name string, n int64, alpha string) Value {
	var set [256]bool
	for i := 0; i < len(alpha); i++ {
		if i+2 < len(alpha) && alpha[i+1] == '-' {
			for c := int(alpha[i]); c <= int(alpha[i+2]); c++ {
				set[c] = true
			}
			i += 2
			continue
		}
		set[alpha[i]] = true
	}
	lo, hi := 255, 0
	for c := range set {
		if set[c] {
			lo, hi = min(lo, c), max(hi, c)
		}
	}
	var bs []Value
	for i := int64(0); i < n; i++ {
		v := it.symInt(fmt.Sprintf("%s[%d]", name, i), "int", int64(lo), int64(hi))
		if t, ok := v.(*Term); ok {
			var cs []*Term
			for c := lo; c <= hi; {
				if !set[c] {
					c++
					continue
				}
				e := c
				for e+1 <= hi && set[e+1] {
					e++
				}
				cs = append(cs, it.ts.And(it.ts.Le(it.ts.Int(int64(c)), t), it.ts.Le(t, it.ts.Int(int64(e)))))
				c = e + 1
			}
			it.assume(it.simp(it.ts.Or(cs...)))
		}
		bs = append(bs, v)
	}
	return bytesToStr(bs)
}

// callMethod calls a method of a dynamic value by name.
func (it *Interp) callMethod(fr *Frame, ifc Iface, name string, args ...Value) Value {
	if ifc.t == nil {
		it.rtPanic(fr, "invalid memory address or nil pointer dereference")
	}
	f := it.findMethodByName(ifc.t, name)
	if f == nil {
		it.unsupported(fr, "no method %s on %s", name, ifc.t)
	}
	return it.callFn(fr, f, append([]Value{ifc.v}, args...), nil)
}

func (it *Interp) comparable(v Value) bool {
	switch v := v.(type) {
	case Slice, *MapV, *Closure, *Native:
		return false
	case Struct:
		for _, x := range v {
			if !it.comparable(x) {
				return false
			}
		}
	case Array:
		for _, x := range v {
			if !it.comparable(x) {
				return false
			}
		}
	case Iface:
		return it.comparable(v.v)
	}
	return true
}

func (it *Interp) errorsIs(fr *Frame, err, target Iface) Value {
	if err.t == nil || target.t == nil {
		return err.t == nil && target.t == nil
	}
	for {
		if types.Comparable(target.t) && it.comparable(target.v) && it.sameType(err.t, target.t) && it.comparable(err.v) && it.truth(it.equal(fr, err, target)) {
			return true
		}
		if f := it.findMethodByName(err.t, "Is"); f != nil && f.Signature.Params().Len() == 1 {
			if it.truth(it.callFn(fr, f, []Value{err.v, target}, nil)) {
				return true
			}
		}
		f := it.findMethodByName(err.t, "Unwrap")
		if f == nil {
			return false
		}
		r := it.callFn(fr, f, []Value{err.v}, nil)
		switch r := r.(type) {
		case Iface:
			if r.t == nil {
				return false
			}
			err = r
		case Slice:
			for _, e := range r.a {
				if it.truth(it.errorsIs(fr, e.(Iface), target)) {
					return true
				}
			}
			return false
		default:
			return false
		}
	}
}

func (it *Interp) errorsAs(fr *Frame, err Iface, el types.Type, dst *Value) Value {
	for err.t != nil {
		if ifc, ok := el.Underlying().(*types.Interface); ok {
			if it.implements(err.t, ifc) {
				storeInto(dst, err)
				return true
			}
		} else if it.sameType(err.t, el) {
			storeInto(dst, err.v)
			return true
		}
		if f := it.findMethodByName(err.t, "As"); f != nil && f.Signature.Params().Len() == 1 {
			if it.truth(it.callFn(fr, f, []Value{err.v, Iface{types.NewPointer(el), dst}}, nil)) {
				return true
			}
		}
		f := it.findMethodByName(err.t, "Unwrap")
		if f == nil {
			return false
		}
		switch r := it.callFn(fr, f, []Value{err.v}, nil).(type) {
		case Iface:
			err = r
		case Slice:
			for _, e := range r.a {
				if it.truth(it.errorsAs(fr, e.(Iface), el, dst)) {
					return true
				}
			}
			return false
		default:
			return false
		}
	}
	return false
}

func shortType(t types.Type) string {
	return types.TypeString(t, func(p *types.Package) string { return p.Name() })
}

var _ = strings.Index
