package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"math/big"
	"runtime/debug"
	"strings"
	"sync"

	"golang.org/x/tools/go/ssa"
)

// ---- compiled functions ----

type opKind uint8

const (
	oReg opKind = iota
	oConst
	oGlobal
)

type opnd struct {
	k opKind
	i int
	v Value
	g *ssa.Global
}

type cinstr struct {
	in   ssa.Instruction
	op   uint8
	dst  int // -1 if none
	ops  []opnd
	ik   ikind // integer kind of operand / result
	ik2  ikind
	t    types.Type
	x    any
	xi   int
	succ int
}

type cblock struct {
	ins  []cinstr
	phis []cphi
	b    *ssa.BasicBlock
}
type cphi struct {
	dst   int
	edges []opnd
}

type cfn struct {
	fn       *ssa.Function
	nregs    int
	blocks   []cblock
	hasDefer bool
	intr     intrinsic
	once     sync.Once
	external bool
	pure     int8 // 0 unknown 1 pure scalar 2 not
	pure2    int8
	pkgPath  string
	fullName string
	recover  int
}

type intrinsic func(it *Interp, fr *Frame, fn *ssa.Function, args []Value) Value

const (
	cUnOp uint8 = iota
	cBinOp
	cCall
	cChangeInterface
	cPass
	cConvert
	cMakeInterface
	cExtract
	cSlice
	cReturn
	cRunDefers
	cPanic
	cSend
	cStore
	cIf
	cJump
	cDefer
	cGo
	cMakeChan
	cAlloc
	cMakeSlice
	cMakeMap
	cRange
	cNext
	cFieldAddr
	cField
	cIndexAddr
	cIndex
	cLookup
	cMapUpdate
	cTypeAssert
	cMakeClosure
	cSelect
	cDebug
	cSliceToArrayPtr
	cMultiConvert
)

func (e *Engine) cfnOf(fn *ssa.Function) *cfn {
	if c, ok := e.cfns.Load(fn); ok {
		cf := c.(*cfn)
		cf.once.Do(func() { e.compile(cf) })
		return cf
	}
	c, _ := e.cfns.LoadOrStore(fn, &cfn{fn: fn})
	cf := c.(*cfn)
	cf.once.Do(func() { e.compile(cf) })
	return cf
}

func fnPkgPath(fn *ssa.Function) string {
	if fn.Pkg != nil {
		return fn.Pkg.Pkg.Path()
	}
	if o := fn.Origin(); o != nil && o.Pkg != nil {
		return o.Pkg.Pkg.Path()
	}
	if fn.Object() != nil && fn.Object().Pkg() != nil {
		return fn.Object().Pkg().Path()
	}
	// wrappers: $bound, $thunk, promoted method wrappers
	if fn.Signature.Recv() != nil {
		t := deref(fn.Signature.Recv().Type())
		if n, ok := t.(*types.Named); ok && n.Obj().Pkg() != nil {
			return n.Obj().Pkg().Path()
		}
	}
	if p := fn.Parent(); p != nil {
		return fnPkgPath(p)
	}
	return ""
}

func (e *Engine) compile(c *cfn) {
	fn := c.fn
	c.pkgPath = fnPkgPath(fn)
	c.fullName = fn.String()
	c.intr = e.findIntrinsic(fn)
	c.recover = -1
	if len(fn.Blocks) == 0 {
		c.external = true
		return
	}
	regs := map[ssa.Value]int{}
	n := 0
	add := func(v ssa.Value) int {
		regs[v] = n
		n++
		return n - 1
	}
	for _, p := range fn.Params {
		add(p)
	}
	for _, f := range fn.FreeVars {
		add(f)
	}
	blocks := fn.Blocks
	for _, b := range blocks {
		for _, in := range b.Instrs {
			if v, ok := in.(ssa.Value); ok {
				add(v)
			}
		}
	}
	c.nregs = n
	mkop := func(v ssa.Value) opnd {
		switch v := v.(type) {
		case nil:
			return opnd{k: oConst}
		case *ssa.Const:
			return opnd{k: oConst, v: constVal(v)}
		case *ssa.Global:
			return opnd{k: oGlobal, g: v}
		case *ssa.Function:
			return opnd{k: oConst, v: &Closure{fn: v}}
		case *ssa.Builtin:
			return opnd{k: oConst, v: nil}
		}
		r, ok := regs[v]
		if !ok {
			panic(fmt.Sprintf("no register for %s in %s", v, fn))
		}
		return opnd{k: oReg, i: r}
	}
	c.blocks = make([]cblock, len(blocks))
	for bi, b := range blocks {
		if fn.Recover == b {
			c.recover = bi
		}
		cb := &c.blocks[bi]
		cb.b = b
		for _, in := range b.Instrs {
			if phi, ok := in.(*ssa.Phi); ok {
				ph := cphi{dst: regs[phi]}
				for _, ed := range phi.Edges {
					ph.edges = append(ph.edges, mkop(ed))
				}
				cb.phis = append(cb.phis, ph)
				continue
			}
			ci := cinstr{in: in, dst: -1}
			if v, ok := in.(ssa.Value); ok {
				ci.dst = regs[v]
			}
			ops := func(vs ...ssa.Value) {
				for _, v := range vs {
					ci.ops = append(ci.ops, mkop(v))
				}
			}
			switch in := in.(type) {
			case *ssa.DebugRef:
				continue
			case *ssa.UnOp:
				ci.op = cUnOp
				ops(in.X)
				ci.ik, _ = intKind(in.X.Type())
				ci.t = in.Type()
			case *ssa.BinOp:
				ci.op = cBinOp
				ops(in.X, in.Y)
				ci.t = in.X.Type()
				ci.ik, _ = intKind(in.X.Type())
				ci.ik2, _ = intKind(in.Y.Type())
			case *ssa.Call:
				ci.op = cCall
				ci.ops = callOps(&in.Call, mkop)
			case *ssa.Defer:
				ci.op = cDefer
				c.hasDefer = true
				ci.ops = callOps(&in.Call, mkop)
			case *ssa.Go:
				ci.op = cGo
				ci.ops = callOps(&in.Call, mkop)
			case *ssa.ChangeInterface:
				ci.op = cPass
				ops(in.X)
			case *ssa.ChangeType:
				ci.op = cPass
				ops(in.X)
			case *ssa.Convert:
				ci.op = cConvert
				ops(in.X)
			case *ssa.MultiConvert:
				ci.op = cConvert
				ops(in.X)
			case *ssa.SliceToArrayPointer:
				ci.op = cSliceToArrayPtr
				ops(in.X)
			case *ssa.MakeInterface:
				ci.op = cMakeInterface
				ci.t = in.X.Type()
				ops(in.X)
			case *ssa.Extract:
				ci.op = cExtract
				ci.xi = in.Index
				ops(in.Tuple)
			case *ssa.Slice:
				ci.op = cSlice
				ops(in.X, in.Low, in.High, in.Max)
				ci.xi = 0
				if in.Low != nil {
					ci.xi |= 1
				}
				if in.High != nil {
					ci.xi |= 2
				}
				if in.Max != nil {
					ci.xi |= 4
				}
			case *ssa.Return:
				ci.op = cReturn
				ops(in.Results...)
			case *ssa.RunDefers:
				ci.op = cRunDefers
			case *ssa.Panic:
				ci.op = cPanic
				ops(in.X)
			case *ssa.Send:
				ci.op = cSend
				ops(in.Chan, in.X)
			case *ssa.Store:
				ci.op = cStore
				ops(in.Addr, in.Val)
			case *ssa.If:
				ci.op = cIf
				ops(in.Cond)
			case *ssa.Jump:
				ci.op = cJump
			case *ssa.MakeChan:
				ci.op = cMakeChan
				ops(in.Size)
			case *ssa.Alloc:
				ci.op = cAlloc
				ci.t = deref(in.Type())
			case *ssa.MakeSlice:
				ci.op = cMakeSlice
				ops(in.Len, in.Cap)
				ci.t = in.Type().Underlying().(*types.Slice).Elem()
			case *ssa.MakeMap:
				ci.op = cMakeMap
			case *ssa.Range:
				ci.op = cRange
				ops(in.X)
			case *ssa.Next:
				ci.op = cNext
				ops(in.Iter)
			case *ssa.FieldAddr:
				ci.op = cFieldAddr
				ci.xi = in.Field
				ops(in.X)
			case *ssa.Field:
				ci.op = cField
				ci.xi = in.Field
				ops(in.X)
			case *ssa.IndexAddr:
				ci.op = cIndexAddr
				ops(in.X, in.Index)
				ci.ik, _ = intKind(in.Index.Type())
			case *ssa.Index:
				ci.op = cIndex
				ops(in.X, in.Index)
				ci.ik, _ = intKind(in.Index.Type())
				ci.t = in.Type()
			case *ssa.Lookup:
				ci.op = cLookup
				ops(in.X, in.Index)
				ci.ik, _ = intKind(in.Index.Type())
				ci.t = in.X.Type()
			case *ssa.MapUpdate:
				ci.op = cMapUpdate
				ops(in.Map, in.Key, in.Value)
			case *ssa.TypeAssert:
				ci.op = cTypeAssert
				ops(in.X)
			case *ssa.MakeClosure:
				ci.op = cMakeClosure
				ops(in.Bindings...)
				ci.x = in.Fn.(*ssa.Function)
			case *ssa.Select:
				ci.op = cSelect
				for _, st := range in.States {
					ops(st.Chan, st.Send)
				}
			default:
				panic(fmt.Sprintf("compile: %T", in))
			}
			cb.ins = append(cb.ins, ci)
		}
	}
}

func callOps(c *ssa.CallCommon, mkop func(ssa.Value) opnd) []opnd {
	ops := []opnd{mkop(c.Value)}
	for _, a := range c.Args {
		ops = append(ops, mkop(a))
	}
	return ops
}

func constVal(c *ssa.Const) Value {
	if c.Value == nil {
		return zero(c.Type())
	}
	t := c.Type().Underlying()
	if b, ok := t.(*types.Basic); ok {
		switch {
		case b.Info()&types.IsBoolean != 0:
			return constant.BoolVal(c.Value)
		case b.Info()&types.IsInteger != 0:
			ci := constant.ToInt(c.Value)
			if v, ok := constant.Int64Val(ci); ok {
				return v
			}
			u, _ := constant.Uint64Val(ci)
			return int64(u)
		case b.Info()&types.IsFloat != 0:
			f, _ := constant.Float64Val(c.Value)
			return f
		case b.Info()&types.IsString != 0:
			if c.Value.Kind() == constant.String {
				return constant.StringVal(c.Value)
			}
			v, _ := constant.Int64Val(c.Value)
			return string(rune(v))
		case b.Info()&types.IsComplex != 0:
			return complex128(0)
		case b.Kind() == types.UnsafePointer:
			return (*Value)(nil)
		}
	}
	return Poison{fmt.Sprintf("const %s", c)}
}

// ---- interpreter state ----

type Frame struct {
	it          *Interp
	c           *cfn
	regs        []Value
	block       int
	prev        *ssa.BasicBlock
	defers      []deferred
	result      Value
	panicking   bool
	panicV      targetPanic
	caller      *Frame
	deferParent *Frame // set for frames run as deferred calls
	depth       int
	cur         *cinstr
}

type deferred struct {
	fn   Value
	args []Value
	bi   *ssa.Builtin
	ci   *cinstr
}

// targetPanic is a panic of the interpreted program.
type targetPanic struct {
	v     Iface
	where string
}

// pathEnd terminates the current path.
type pathEnd struct{ why string }

// engineErr is an operation the executor does not support.
type engineErr struct {
	msg   string
	where string
}

type Interp struct {
	e         *Engine
	w         *Worker
	ts        *TermStore
	globals   map[*ssa.Global]*Value
	inited    map[*ssa.Package]int8
	initing   int
	p         *Path
	mcache    map[mkey]*ssa.Function
	icache    map[ikey]bool
	funcs     map[*ssa.Function]int64 // functions encoded (for evidence)
	uniq      map[string]*Value
	noPreempt int
	top       *Frame // of the instruction last begun (for the fork profile)
}

type mkey struct {
	t types.Type
	m *types.Func
}
type ikey struct {
	t types.Type
	i *types.Interface
}

func newInterp(e *Engine, w *Worker) *Interp {
	return &Interp{e: e, w: w, ts: w.ts, globals: map[*ssa.Global]*Value{}, inited: map[*ssa.Package]int8{},
		mcache: map[mkey]*ssa.Function{}, icache: map[ikey]bool{}, funcs: map[*ssa.Function]int64{}, uniq: map[string]*Value{}}
}

// perPathPkg reports whether the globals of a package are re-initialised for
// every path (they are part of the state of the code under test).
func (e *Engine) perPathPkg(path string) bool {
	return strings.HasPrefix(path, modPath) || strings.HasPrefix(path, "github.com/gorilla/")
}

func (it *Interp) resetPathGlobals() {
	for g := range it.globals {
		if g.Pkg != nil && it.e.perPathPkg(g.Pkg.Pkg.Path()) {
			delete(it.globals, g)
		}
	}
	for p := range it.inited {
		if it.e.perPathPkg(p.Pkg.Path()) {
			delete(it.inited, p)
		}
	}
}

func (it *Interp) global(fr *Frame, g *ssa.Global) *Value {
	if g.Pkg != nil {
		if st := it.inited[g.Pkg]; st == 0 {
			it.initPkg(fr, g.Pkg)
		}
	}
	p, ok := it.globals[g]
	if !ok {
		p = new(Value)
		*p = zero(deref(g.Type()))
		it.globals[g] = p
	}
	return p
}

func (it *Interp) initPkg(fr *Frame, pkg *ssa.Package) {
	it.inited[pkg] = 1
	path := pkg.Pkg.Path()
	if it.e.opaquePkg(path) || skipInit[path] {
		it.inited[pkg] = 2
		return
	}
	fn := pkg.Func("init")
	if fn == nil {
		it.inited[pkg] = 2
		return
	}
	it.initing++
	saveSteps := it.p.steps
	defer func() {
		it.initing--
		it.inited[pkg] = 2
		it.p.steps = saveSteps
		if r := recover(); r != nil {
			if _, ok := r.(pathEnd); ok {
				panic(r)
			}
			if it.e.debug {
				fmt.Printf("init of %s aborted: %v\n", path, r)
			}
			if it.e.perPathPkg(path) {
				panic(r)
			}
		}
	}()
	it.callFn(nil, fn, nil, nil)
}

// skipInit lists packages whose initialisers are never needed (their
// functions are intrinsics) and would only cost time.
var skipInit = map[string]bool{
	"runtime": true, "syscall": true, "internal/cpu": true, "reflect": true,
	"crypto/tls": true, "internal/godebug": true,
	"internal/godebugs": true, "crypto/x509": true, "encoding/gob": true,
	"encoding/json": true, "gopkg.in/yaml.v3": true,
	"github.com/kacheio/kache/pkg/utils/version": false,
}

func (fr *Frame) get(o *opnd) Value {
	switch o.k {
	case oReg:
		return fr.regs[o.i]
	case oConst:
		return o.v
	default:
		return fr.it.global(fr, o.g)
	}
}

func (it *Interp) unsupported(fr *Frame, format string, args ...any) {
	panic(engineErr{fmt.Sprintf(format, args...), it.where(fr)})
}

func (it *Interp) where(fr *Frame) string {
	var b strings.Builder
	n := 0
	for f := fr; f != nil && n < 14; f = f.caller {
		if n > 0 {
			b.WriteString(" < ")
		}
		b.WriteString(f.c.fullName)
		if f.cur != nil {
			if p := f.cur.in.Pos(); p.IsValid() {
				pos := it.e.prog.Fset.Position(p)
				fn := pos.Filename
				if i := strings.LastIndexByte(fn, '/'); i >= 0 {
					fn = fn[i+1:]
				}
				fmt.Fprintf(&b, "(%s:%d)", fn, pos.Line)
			}
		}
		n++
	}
	return b.String()
}

// callFn runs fn on args; env binds its free variables.
func (it *Interp) callFn(caller *Frame, fn *ssa.Function, args []Value, env []Value) Value {
	c := it.e.cfnOf(fn)
	if c.intr != nil {
		return c.intr(it, caller, fn, args)
	}
	if c.external {
		if it.initing > 0 {
			return Poison{"external function " + c.fullName}
		}
		it.unsupported(caller, "external function %s", c.fullName)
	}
	if it.initing > 0 && fn.Name() == "init" && fn.Signature.Recv() == nil && fn.Synthetic != "" && caller != nil && caller.c.fn.Name() == "init" && fn.Pkg != caller.c.fn.Pkg {
		return nil // packages are initialised lazily, on first access
	}
	if c.pure == 0 {
		it.e.classifyPure(c)
	}
	if c.pure == 1 {
		if v, ok := it.summarise(caller, c, args, env); ok {
			return v
		}
	}
	depth := 0
	if caller != nil {
		depth = caller.depth + 1
		if depth > 2000 {
			panic(pathEnd{"bound:recursion"})
		}
	}
	fr := &Frame{it: it, c: c, regs: make([]Value, c.nregs), caller: caller, depth: depth}
	copy(fr.regs, args)
	copy(fr.regs[len(args):], env)
	it.funcs[fn]++
	return it.run(fr)
}

func (it *Interp) run(fr *Frame) Value {
	if !fr.c.hasDefer {
		it.loop(fr)
		return fr.result
	}
	it.runProtected(fr, func() { it.loop(fr) })
	if fr.panicking {
		it.runDefers(fr)
		if fr.panicking {
			panic(fr.panicV)
		}
		if fr.c.recover >= 0 {
			fr.block = fr.c.recover
			fr.prev = nil
			it.loop(fr)
		} else {
			fr.result = zero(fr.c.fn.Signature.Results())
			if fr.c.fn.Signature.Results().Len() == 0 {
				fr.result = nil
			}
		}
	}
	return fr.result
}

func (it *Interp) runProtected(fr *Frame, f func()) {
	defer func() {
		if r := recover(); r != nil {
			switch r := r.(type) {
			case targetPanic:
				fr.panicking = true
				fr.panicV = r
			case pathEnd, engineErr, killG:
				panic(r)
			default:
				panic(engineErr{fmt.Sprint("internal: ", r), it.where(fr) + "\n" + string(debug.Stack())})
			}
		}
	}()
	f()
}

func (it *Interp) runDefers(fr *Frame) {
	for len(fr.defers) > 0 {
		d := fr.defers[len(fr.defers)-1]
		fr.defers = fr.defers[:len(fr.defers)-1]
		it.runProtected(fr, func() {
			if d.bi != nil {
				it.builtin(fr, d.bi, d.ci, d.args)
				return
			}
			it.callDeferred(fr, d.fn, d.args)
		})
	}
}

func (it *Interp) callDeferred(fr *Frame, f Value, args []Value) {
	switch f := f.(type) {
	case *Closure:
		if f == nil {
			it.rtPanic(fr, "invalid memory address or nil pointer dereference")
		}
		c := it.e.cfnOf(f.fn)
		if c.intr != nil || c.external {
			it.callFn(fr, f.fn, args, f.env)
			return
		}
		nf := &Frame{it: it, c: c, regs: make([]Value, c.nregs), caller: fr, deferParent: fr, depth: fr.depth + 1}
		copy(nf.regs, args)
		copy(nf.regs[len(args):], f.env)
		it.funcs[f.fn]++
		it.run(nf)
	case *Native:
		f.f(it, fr, args)
	default:
		it.unsupported(fr, "deferred call of %T", f)
	}
}

func (it *Interp) callValue(fr *Frame, f Value, args []Value) Value {
	switch f := f.(type) {
	case *Closure:
		if f == nil {
			it.rtPanic(fr, "invalid memory address or nil pointer dereference")
		}
		return it.callFn(fr, f.fn, args, f.env)
	case *Native:
		return f.f(it, fr, args)
	case Poison:
		it.unsupported(fr, "call of poison value (%s)", f.why)
	}
	it.unsupported(fr, "call of %T", f)
	return nil
}

// rtPanic raises a run-time error of the interpreted program.
func (it *Interp) rtPanic(fr *Frame, msg string) {
	panic(targetPanic{it.rtError(msg), it.where(fr)})
}

func (it *Interp) rtError(msg string) Iface {
	return Iface{it.e.rtErrType(), msg}
}

func (e *Engine) rtErrType() types.Type {
	return e.rtErrT
}

// findMethod resolves a dynamic method call.
func (it *Interp) findMethod(fr *Frame, t types.Type, m *types.Func) *ssa.Function {
	k := mkey{t, m}
	if f, ok := it.mcache[k]; ok {
		return f
	}
	it.e.progMu.Lock()
	f := it.e.prog.LookupMethod(t, m.Pkg(), m.Name())
	it.e.progMu.Unlock()
	it.mcache[k] = f
	return f
}

func (it *Interp) findMethodByName(t types.Type, name string) *ssa.Function {
	it.e.progMu.Lock()
	defer it.e.progMu.Unlock()
	ms := it.e.prog.MethodSets.MethodSet(t)
	for i := 0; i < ms.Len(); i++ {
		if s := ms.At(i); s.Obj().Name() == name {
			return it.e.prog.MethodValue(s)
		}
	}
	return nil
}

func (it *Interp) implements(t types.Type, i *types.Interface) bool {
	k := ikey{t, i}
	if b, ok := it.icache[k]; ok {
		return b
	}
	b := types.Implements(t, i)
	it.icache[k] = b
	return b
}

func (it *Interp) prepareCall(fr *Frame, ci *cinstr, c *ssa.CallCommon) (f Value, args []Value) {
	if c.IsInvoke() {
		rv := fr.get(&ci.ops[0])
		ifc, ok := rv.(Iface)
		if !ok {
			it.unsupported(fr, "invoke %s on %T", c.Method.Name(), rv)
		}
		if ifc.t == nil {
			it.rtPanic(fr, "invalid memory address or nil pointer dereference")
		}
		if _, ok := ifc.v.(*Opaque); ok {
			sig := c.Method.Type().(*types.Signature)
			return &Native{"opaque", func(it *Interp, fr *Frame, args []Value) Value {
				return it.opaqueResult(sig.Results())
			}}, nil
		}
		fn := it.findMethod(fr, ifc.t, c.Method)
		if fn == nil {
			it.unsupported(fr, "no method %s on %s", c.Method.Name(), ifc.t)
		}
		args = make([]Value, len(ci.ops))
		args[0] = ifc.v
		for i := 1; i < len(ci.ops); i++ {
			args[i] = fr.get(&ci.ops[i])
		}
		return &Closure{fn: fn}, args
	}
	args = make([]Value, len(ci.ops)-1)
	for i := 1; i < len(ci.ops); i++ {
		args[i-1] = fr.get(&ci.ops[i])
	}
	return fr.get(&ci.ops[0]), args
}

const trueStr = "true"

func (it *Interp) loop(fr *Frame) {
	p := it.p
blockLoop:
	for {
		cb := &fr.c.blocks[fr.block]
		if len(cb.phis) > 0 && fr.prev != nil {
			idx := -1
			for i, pr := range cb.b.Preds {
				if pr == fr.prev {
					idx = i
					break
				}
			}
			if len(cb.phis) == 1 {
				fr.regs[cb.phis[0].dst] = fr.get(&cb.phis[0].edges[idx])
			} else {
				var tmp [8]Value
				vs := tmp[:0]
				for i := range cb.phis {
					vs = append(vs, fr.get(&cb.phis[i].edges[idx]))
				}
				for i := range cb.phis {
					fr.regs[cb.phis[i].dst] = vs[i]
				}
			}
		}
		for i := range cb.ins {
			ci := &cb.ins[i]
			fr.cur = ci
			it.top = fr
			p.steps++
			if p.steps > p.maxSteps {
				if it.e.debug {
					println("step bound at", it.where(fr))
				}
				panic(pathEnd{"bound:steps"})
			}
			switch ci.op {
			case cIf:
				v := fr.get(&ci.ops[0])
				var b bool
				switch v := v.(type) {
				case bool:
					b = v
				case *Term:
					b = it.branch(v)
				default:
					it.unsupported(fr, "branch on %T (%v)", v, v)
				}
				fr.prev = cb.b
				if b {
					fr.block = cb.b.Succs[0].Index
				} else {
					fr.block = cb.b.Succs[1].Index
				}
				continue blockLoop
			case cJump:
				fr.prev = cb.b
				fr.block = cb.b.Succs[0].Index
				continue blockLoop
			case cReturn:
				switch len(ci.ops) {
				case 0:
				case 1:
					fr.result = fr.get(&ci.ops[0])
				default:
					t := make(Tuple, len(ci.ops))
					for i := range ci.ops {
						t[i] = fr.get(&ci.ops[i])
					}
					fr.result = t
				}
				return
			case cCall:
				in := ci.in.(*ssa.Call)
				if bi, ok := in.Call.Value.(*ssa.Builtin); ok {
					args := make([]Value, len(ci.ops)-1)
					for i := range args {
						args[i] = fr.get(&ci.ops[i+1])
					}
					if it.initing > 0 {
						if ps, ok := anyPoison(args); ok {
							fr.regs[ci.dst] = ps
							continue
						}
					}
					fr.regs[ci.dst] = it.builtin(fr, bi, ci, args)
					continue
				}
				if it.initing > 0 {
					it.callInInit(fr, ci, in)
					continue
				}
				f, args := it.prepareCall(fr, ci, &in.Call)
				fr.regs[ci.dst] = it.callValue(fr, f, args)
			case cDefer:
				in := ci.in.(*ssa.Defer)
				if bi, ok := in.Call.Value.(*ssa.Builtin); ok {
					args := make([]Value, len(ci.ops)-1)
					for i := range args {
						args[i] = fr.get(&ci.ops[i+1])
					}
					fr.defers = append(fr.defers, deferred{bi: bi, args: args, ci: ci})
					continue
				}
				f, args := it.prepareCall(fr, ci, &in.Call)
				fr.defers = append(fr.defers, deferred{fn: f, args: args})
			case cGo:
				in := ci.in.(*ssa.Go)
				if _, ok := in.Call.Value.(*ssa.Builtin); ok {
					it.unsupported(fr, "go builtin")
				}
				f, args := it.prepareCall(fr, ci, &in.Call)
				it.spawn(fr, f, args)
			case cRunDefers:
				it.runDefers(fr)
				if fr.panicking {
					panic(fr.panicV)
				}
			default:
				if it.initing > 0 {
					it.stepInInit(fr, ci)
				} else {
					it.step(fr, ci)
				}
			}
		}
		it.unsupported(fr, "fell off block")
	}
}

func anyPoison(args []Value) (Poison, bool) {
	for _, a := range args {
		if p, ok := a.(Poison); ok {
			return p, true
		}
	}
	return Poison{}, false
}

// callInInit executes a call during package initialisation; unsupported
// operations yield a poison value instead of aborting.
func (it *Interp) callInInit(fr *Frame, ci *cinstr, in *ssa.Call) {
	defer func() {
		if r := recover(); r != nil {
			switch r := r.(type) {
			case engineErr:
				if fr.c.fn.Name() != "init" && !strings.HasPrefix(fr.c.fn.Name(), "init#") {
					panic(r)
				}
				if it.e.debug {
					fmt.Printf("init poison: %s: %s at %s\n", fr.c.fullName, r.msg, r.where)
				}
				fr.regs[ci.dst] = Poison{r.msg}
				if tup, ok := in.Type().(*types.Tuple); ok && tup.Len() > 1 {
					t := make(Tuple, tup.Len())
					for i := range t {
						t[i] = Poison{r.msg}
					}
					fr.regs[ci.dst] = t
				}
			case targetPanic, pathEnd:
				panic(r)
			default:
				panic(r)
			}
		}
	}()
	f, args := it.prepareCall(fr, ci, &in.Call)
	if ps, ok := f.(Poison); ok {
		panic(engineErr{"poison callee: " + ps.why, ""})
	}
	if len(args) > 0 {
		if ps, ok := args[0].(Poison); ok {
			panic(engineErr{"poison receiver: " + ps.why, ""})
		}
	}
	fr.regs[ci.dst] = it.callValue(fr, f, args)
}

func (it *Interp) stepInInit(fr *Frame, ci *cinstr) {
	for i := range ci.ops {
		if ci.ops[i].k == oReg {
			if ps, ok := fr.regs[ci.ops[i].i].(Poison); ok {
				if ci.op == cStore && i == 1 {
					break
				}
				if ci.dst >= 0 {
					fr.regs[ci.dst] = ps
				}
				return
			}
		}
	}
	it.step(fr, ci)
}

func (it *Interp) ptr(fr *Frame, v Value) *Value {
	p, ok := v.(*Value)
	if !ok {
		if ps, ok := v.(Poison); ok {
			it.unsupported(fr, "poison pointer: %s", ps.why)
		}
		it.unsupported(fr, "pointer is %T", v)
	}
	if p == nil {
		it.rtPanic(fr, "invalid memory address or nil pointer dereference")
	}
	return p
}

func (it *Interp) load(fr *Frame, p *Value) Value {
	if it.p.race != nil {
		it.p.race.access(it, fr, p, false)
	}
	v := *p
	switch v := v.(type) {
	case Struct, Array:
		return copyVal(v)
	case Poison:
		if it.initing == 0 {
			it.unsupported(fr, "poison value: %s", v.why)
		}
	}
	return v
}

func (it *Interp) store(fr *Frame, p *Value, v Value) {
	if it.p.race != nil {
		it.p.race.access(it, fr, p, true)
	}
	storeInto(p, v)
}

func (it *Interp) step(fr *Frame, ci *cinstr) {
	switch ci.op {
	case cPass:
		fr.regs[ci.dst] = fr.get(&ci.ops[0])
	case cUnOp:
		fr.regs[ci.dst] = it.unop(fr, ci)
	case cBinOp:
		in := ci.in.(*ssa.BinOp)
		x, y := fr.get(&ci.ops[0]), fr.get(&ci.ops[1])
		if a, ok := x.(int64); ok {
			if b, ok := y.(int64); ok {
				fr.regs[ci.dst] = it.intOp(fr, in.Op, a, b, ci.ik, ci.ik2)
				return
			}
		}
		fr.regs[ci.dst] = it.binop(fr, in.Op, x, y, ci.t, ci.ik, ci.ik2)
	case cStore:
		p := it.ptr(fr, fr.get(&ci.ops[0]))
		it.store(fr, p, fr.get(&ci.ops[1]))
	case cAlloc:
		p := new(Value)
		*p = zero(ci.t)
		fr.regs[ci.dst] = p
	case cFieldAddr:
		p := it.ptr(fr, fr.get(&ci.ops[0]))
		s, ok := (*p).(Struct)
		if !ok {
			it.unsupported(fr, "field address of %T", *p)
		}
		if ci.xi >= len(s) {
			it.unsupported(fr, "field index out of range")
		}
		fr.regs[ci.dst] = &s[ci.xi]
	case cField:
		v := fr.get(&ci.ops[0])
		s, ok := v.(Struct)
		if !ok {
			it.unsupported(fr, "field of %T", v)
		}
		fr.regs[ci.dst] = s[ci.xi]
	case cIndexAddr:
		fr.regs[ci.dst] = it.indexAddr(fr, ci)
	case cIndex:
		fr.regs[ci.dst] = it.index(fr, fr.get(&ci.ops[0]), fr.get(&ci.ops[1]), ci)
	case cExtract:
		v := fr.get(&ci.ops[0])
		t, ok := v.(Tuple)
		if !ok {
			if ps, ok := v.(Poison); ok {
				fr.regs[ci.dst] = ps
				return
			}
			it.unsupported(fr, "extract from %T", v)
		}
		fr.regs[ci.dst] = t[ci.xi]
	case cMakeInterface:
		v := fr.get(&ci.ops[0])
		fr.regs[ci.dst] = Iface{ci.t, v}
	case cConvert:
		in := ci.in.(ssa.Value)
		var from types.Type
		switch x := ci.in.(type) {
		case *ssa.Convert:
			from = x.X.Type()
		case *ssa.MultiConvert:
			from = x.X.Type()
		}
		fr.regs[ci.dst] = it.convert(fr, fr.get(&ci.ops[0]), from, in.Type())
	case cSlice:
		fr.regs[ci.dst] = it.slice(fr, ci)
	case cPanic:
		v := fr.get(&ci.ops[0])
		ifc, _ := v.(Iface)
		panic(targetPanic{ifc, it.where(fr)})
	case cSend:
		it.chanSend(fr, fr.get(&ci.ops[0]).(*ChanV), fr.get(&ci.ops[1]))
	case cMakeChan:
		n := it.concInt(fr.get(&ci.ops[0]))
		if n < 0 {
			it.rtPanic(fr, "makechan: size out of range")
		}
		fr.regs[ci.dst] = &ChanV{cap: int(n)}
	case cMakeSlice:
		n := it.concInt(fr.get(&ci.ops[0]))
		c := it.concInt(fr.get(&ci.ops[1]))
		if n < 0 {
			it.rtPanic(fr, "makeslice: len out of range")
		}
		if c < n {
			it.rtPanic(fr, "makeslice: cap out of range")
		}
		if c > 1<<22 {
			panic(pathEnd{"bound:allocation"})
		}
		a := make([]Value, n, c)
		if n > 0 || c > 0 {
			full := a[:c]
			z := zero(ci.t)
			switch z.(type) {
			case Struct, Array:
				for i := range full {
					full[i] = zero(ci.t)
				}
			default:
				for i := range full {
					full[i] = z
				}
			}
		}
		if a == nil {
			a = []Value{}
		}
		fr.regs[ci.dst] = Slice{a}
	case cMakeMap:
		fr.regs[ci.dst] = newMap()
	case cRange:
		fr.regs[ci.dst] = it.rangeIter(fr, fr.get(&ci.ops[0]))
	case cNext:
		fr.regs[ci.dst] = it.next(fr, fr.get(&ci.ops[0]), ci.in.(*ssa.Next))
	case cLookup:
		fr.regs[ci.dst] = it.lookup(fr, ci)
	case cMapUpdate:
		m, ok := fr.get(&ci.ops[0]).(*MapV)
		if !ok {
			it.unsupported(fr, "map update of %T", fr.get(&ci.ops[0]))
		}
		if m == nil {
			panic(targetPanic{it.rtErrorPlain("assignment to entry in nil map"), it.where(fr)})
		}
		it.mapSet(fr, m, fr.get(&ci.ops[1]), fr.get(&ci.ops[2]))
	case cTypeAssert:
		fr.regs[ci.dst] = it.typeAssert(fr, ci.in.(*ssa.TypeAssert), fr.get(&ci.ops[0]))
	case cMakeClosure:
		env := make([]Value, len(ci.ops))
		for i := range ci.ops {
			env[i] = fr.get(&ci.ops[i])
		}
		fr.regs[ci.dst] = &Closure{ci.x.(*ssa.Function), env}
	case cSelect:
		fr.regs[ci.dst] = it.selectOp(fr, ci)
	case cSliceToArrayPtr:
		in := ci.in.(*ssa.SliceToArrayPointer)
		sl := fr.get(&ci.ops[0]).(Slice)
		n := int(deref(in.Type()).Underlying().(*types.Array).Len())
		if len(sl.a) < n {
			it.rtPanic(fr, "cannot convert slice to array pointer: length mismatch")
		}
		if n == 0 && sl.a == nil {
			fr.regs[ci.dst] = (*Value)(nil)
			return
		}
		p := new(Value)
		*p = Array(sl.a[:n:n])
		fr.regs[ci.dst] = p
	default:
		it.unsupported(fr, "instruction %s", ci.in)
	}
}

func (it *Interp) rtErrorPlain(msg string) Iface { return it.rtError(msg) }

func (it *Interp) indexAddr(fr *Frame, ci *cinstr) Value {
	x := fr.get(&ci.ops[0])
	iv := fr.get(&ci.ops[1])
	var a []Value
	switch x := x.(type) {
	case Slice:
		a = x.a
	case *Value:
		p := it.ptr(fr, x)
		arr, ok := (*p).(Array)
		if !ok {
			it.unsupported(fr, "index address of %T", *p)
		}
		a = arr
	default:
		it.unsupported(fr, "index address of %T", x)
	}
	if t, ok := iv.(*Term); ok {
		n := it.ts.Int(int64(len(a)))
		in := it.ts.And(it.ts.Le(it.ts.zero, t), it.ts.Lt(t, n))
		if !it.branch(in) {
			it.rtPanic(fr, "index out of range")
		}
		// read-only table lookups become an if-then-else term
		if v, ok := ci.in.(*ssa.IndexAddr); ok && onlyLoaded(v) {
			if r, ok := it.iteLookup(a, t); ok {
				cell := new(Value)
				*cell = r
				return cell
			}
		}
		iv = it.concretize(t)
	}
	i := iv.(int64)
	if i < 0 || i >= int64(len(a)) {
		it.rtPanic(fr, fmt.Sprintf("index out of range [%d] with length %d", i, len(a)))
	}
	return &a[i]
}

func onlyLoaded(v *ssa.IndexAddr) bool {
	refs := v.Referrers()
	if refs == nil {
		return false
	}
	for _, r := range *refs {
		if u, ok := r.(*ssa.UnOp); ok && u.Op == token.MUL {
			continue
		}
		if _, ok := r.(*ssa.DebugRef); ok {
			continue
		}
		return false
	}
	return true
}

// iteLookup builds the term a[t] for scalar elements, grouping equal values.
func (it *Interp) iteLookup(a []Value, t *Term) (Value, bool) {
	if len(a) == 0 {
		return nil, false
	}
	isB := false
	switch x := a[0].(type) {
	case int64:
	case bool:
		isB = true
	case *Term:
		isB = x.isBool()
	default:
		return nil, false
	}
	lo, hi := it.ts.interval(t, it.p.bounds)
	f, l := 0, len(a)-1
	if lo != nil && lo.IsInt64() && lo.Int64() > 0 {
		f = int(lo.Int64())
	}
	if hi != nil && hi.IsInt64() && hi.Int64() < int64(l) {
		l = int(hi.Int64())
	}
	type rng struct{ a, b int }
	groups := map[Value][]rng{}
	var order []Value
	for i := f; i <= l; i++ {
		v := a[i]
		switch v.(type) {
		case int64, bool, *Term:
		default:
			return nil, false
		}
		g, ok := groups[v]
		if !ok {
			order = append(order, v)
		}
		if n := len(g); n > 0 && g[n-1].b == i-1 {
			g[n-1].b = i
			groups[v] = g
		} else {
			groups[v] = append(g, rng{i, i})
		}
	}
	if len(order) == 0 {
		return nil, false
	}
	// the most frequent value is the default
	best := 0
	for i, v := range order {
		if len(groups[v]) > len(groups[order[best]]) {
			best = i
		}
	}
	ts := it.ts
	toT := func(v Value) *Term {
		switch v := v.(type) {
		case int64:
			return ts.Int(v)
		case bool:
			return ts.Bool(v)
		}
		return v.(*Term)
	}
	r := toT(order[best])
	for i, v := range order {
		if i == best {
			continue
		}
		var cs []*Term
		for _, g := range groups[v] {
			if g.a == g.b {
				cs = append(cs, ts.Eq(t, ts.Int(int64(g.a))))
			} else {
				cs = append(cs, ts.And(ts.Le(ts.Int(int64(g.a)), t), ts.Le(t, ts.Int(int64(g.b)))))
			}
		}
		c := ts.Or(cs...)
		if isB {
			x := toT(v)
			r = ts.Or(ts.And(c, x), ts.And(ts.Not(c), r))
		} else {
			r = ts.Ite(c, toT(v), r)
		}
	}
	return it.simp(r), true
}

// simp turns constant terms back into concrete values.
func (it *Interp) simp(t *Term) Value {
	switch t.op {
	case OpConst:
		if t.c.IsInt64() {
			return t.c.Int64()
		}
		if t.c.IsUint64() {
			return int64(t.c.Uint64())
		}
	case OpTrue:
		return true
	case OpFalse:
		return false
	}
	return t
}

func (it *Interp) index(fr *Frame, x, iv Value, ci *cinstr) Value {
	switch x := x.(type) {
	case Array:
		if t, ok := iv.(*Term); ok {
			in := it.ts.And(it.ts.Le(it.ts.zero, t), it.ts.Lt(t, it.ts.Int(int64(len(x)))))
			if !it.branch(in) {
				it.rtPanic(fr, "index out of range")
			}
			if r, ok := it.iteLookup(x, t); ok {
				return r
			}
			iv = it.concretize(t)
		}
		i := iv.(int64)
		if i < 0 || i >= int64(len(x)) {
			it.rtPanic(fr, "index out of range")
		}
		return x[i]
	case string, *SStr:
		return it.strIndex(fr, x, iv)
	}
	it.unsupported(fr, "index of %T", x)
	return nil
}

func (it *Interp) slice(fr *Frame, ci *cinstr) Value {
	x := fr.get(&ci.ops[0])
	var lo, hi, mx Value = int64(0), nil, nil
	if ci.xi&1 != 0 {
		lo = fr.get(&ci.ops[1])
	}
	if ci.xi&2 != 0 {
		hi = fr.get(&ci.ops[2])
	}
	if ci.xi&4 != 0 {
		mx = fr.get(&ci.ops[3])
	}
	switch x := x.(type) {
	case string, *SStr:
		return it.strSlice(fr, x, lo, hi)
	case Slice:
		return Slice{it.sliceOf(fr, x.a, lo, hi, mx)}
	case *Value:
		p := it.ptr(fr, x)
		a, ok := (*p).(Array)
		if !ok {
			it.unsupported(fr, "slice of pointer to %T", *p)
		}
		return Slice{it.sliceOf(fr, a, lo, hi, mx)}
	}
	it.unsupported(fr, "slice of %T", x)
	return nil
}

func (it *Interp) sliceOf(fr *Frame, a []Value, lo, hi, mx Value) []Value {
	l := it.concInt(lo)
	h := int64(len(a))
	if hi != nil {
		h = it.concInt(hi)
	}
	m := int64(cap(a))
	if mx != nil {
		m = it.concInt(mx)
	}
	if m < 0 || m > int64(cap(a)) || h < 0 || h > m || l < 0 || l > h {
		it.rtPanic(fr, fmt.Sprintf("slice bounds out of range [%d:%d:%d] with capacity %d", l, h, m, cap(a)))
	}
	if a == nil {
		return nil
	}
	return a[l:h:m]
}

// ---- range / next ----

type mapIter struct {
	m    *MapV
	ents []*mapEnt
	i    int
}
type strIter struct {
	s Value
	i int64
}

func (it *Interp) rangeIter(fr *Frame, x Value) Value {
	switch x := x.(type) {
	case *MapV:
		if x != nil && it.p.race != nil {
			it.p.race.accessMap(it, fr, x, false)
		}
		if x == nil {
			return &mapIter{}
		}
		return &mapIter{m: x, ents: x.ents}
	case string, *SStr:
		return &strIter{s: x}
	}
	it.unsupported(fr, "range over %T", x)
	return nil
}

func (it *Interp) next(fr *Frame, iter Value, in *ssa.Next) Value {
	switch x := iter.(type) {
	case *mapIter:
		if x.m != nil {
			if it.p.race != nil {
				it.p.race.accessMap(it, fr, x.m, false)
			}
			for x.i < len(x.ents) {
				e := x.ents[x.i]
				x.i++
				if !e.dead {
					return Tuple{true, e.k, copyVal(e.v)}
				}
			}
		}
		return Tuple{false, nil, nil}
	case *strIter:
		return it.strNext(fr, x)
	}
	it.unsupported(fr, "next on %T", iter)
	return nil
}

// ---- maps ----

// keyStr renders a concrete key; ok is false when the key is symbolic.
func (it *Interp) keyStr(fr *Frame, k Value) (string, bool) {
	switch k := k.(type) {
	case string:
		return "s" + k, true
	case int64:
		return fmt.Sprintf("i%d", k), true
	case bool:
		return fmt.Sprintf("b%t", k), true
	case float64:
		return fmt.Sprintf("f%v", k), true
	case *Term, *SStr:
		return "", false
	case *Value:
		return fmt.Sprintf("p%p", k), true
	case *ChanV:
		return fmt.Sprintf("c%p", k), true
	case Iface:
		if k.t == nil {
			return "n", true
		}
		s, ok := it.keyStr(fr, k.v)
		return "I" + it.typeKey(k.t) + ":" + s, ok
	case Struct:
		var b strings.Builder
		b.WriteString("{")
		for _, x := range k {
			s, ok := it.keyStr(fr, x)
			if !ok {
				return "", false
			}
			fmt.Fprintf(&b, "%d:%s,", len(s), s)
		}
		return b.String(), true
	case Array:
		var b strings.Builder
		b.WriteString("[")
		for _, x := range k {
			s, ok := it.keyStr(fr, x)
			if !ok {
				return "", false
			}
			fmt.Fprintf(&b, "%d:%s,", len(s), s)
		}
		return b.String(), true
	case *Opaque:
		return fmt.Sprintf("o%p", k), true
	case *NativeObj:
		return fmt.Sprintf("N%p", k), true
	}
	it.rtPanic(fr, fmt.Sprintf("hash of unhashable type %T", k))
	return "", false
}

func (it *Interp) typeKey(t types.Type) string { return it.e.typeKey(t) }

func (it *Interp) mapFind(fr *Frame, m *MapV, k Value) *mapEnt {
	if m == nil {
		return nil
	}
	ks, conc := it.keyStr(fr, k)
	if conc {
		if e, ok := m.idx[ks]; ok {
			return e
		}
		if m.nsym == 0 {
			return nil
		}
	}
	for _, e := range m.ents {
		if e.dead {
			continue
		}
		if conc {
			if _, c2 := it.keyStr(fr, e.k); c2 {
				continue
			}
		}
		if it.truth(it.equal(fr, e.k, k)) {
			return e
		}
	}
	return nil
}

func (it *Interp) mapSet(fr *Frame, m *MapV, k, v Value) {
	if it.p.race != nil {
		it.p.race.accessMap(it, fr, m, true)
	}
	if e := it.mapFind(fr, m, k); e != nil {
		e.v = copyVal(v)
		return
	}
	e := &mapEnt{k: copyVal(k), v: copyVal(v)}
	m.ents = append(m.ents, e)
	m.n++
	if ks, ok := it.keyStr(fr, k); ok {
		m.idx[ks] = e
	} else {
		m.nsym++
	}
}

func (it *Interp) mapDelete(fr *Frame, m *MapV, k Value) {
	if m == nil {
		return
	}
	if it.p.race != nil {
		it.p.race.accessMap(it, fr, m, true)
	}
	if e := it.mapFind(fr, m, k); e != nil {
		it.mapKill(fr, m, e)
	}
}

func (it *Interp) mapKill(fr *Frame, m *MapV, e *mapEnt) {
	e.dead = true
	m.n--
	if ks, ok := it.keyStr(fr, e.k); ok {
		delete(m.idx, ks)
	} else {
		m.nsym--
	}
	if len(m.ents) > 64 && m.n < len(m.ents)/4 {
		var ne []*mapEnt
		for _, x := range m.ents {
			if !x.dead {
				ne = append(ne, x)
			}
		}
		m.ents = ne
	}
}

func (it *Interp) lookup(fr *Frame, ci *cinstr) Value {
	in := ci.in.(*ssa.Lookup)
	x := fr.get(&ci.ops[0])
	k := fr.get(&ci.ops[1])
	switch m := x.(type) {
	case *MapV:
		if m != nil && it.p.race != nil {
			it.p.race.accessMap(it, fr, m, false)
		}
		e := it.mapFind(fr, m, k)
		var v Value
		if e != nil {
			v = copyVal(e.v)
		} else {
			v = zero(in.X.Type().Underlying().(*types.Map).Elem())
		}
		if in.CommaOk {
			return Tuple{v, e != nil}
		}
		return v
	case string, *SStr:
		return it.strIndex(fr, x, k)
	}
	it.unsupported(fr, "lookup in %T", x)
	return nil
}

// ---- type assertions ----

func (it *Interp) sameType(a, b types.Type) bool {
	if a == b {
		return true
	}
	return types.Identical(a, b)
}

func (it *Interp) typeAssert(fr *Frame, in *ssa.TypeAssert, x Value) Value {
	ifc, ok := x.(Iface)
	if !ok {
		it.unsupported(fr, "type assertion on %T", x)
	}
	var v Value
	good := false
	if idst, ok := in.AssertedType.Underlying().(*types.Interface); ok {
		if ifc.t != nil {
			if _, op := ifc.v.(*Opaque); op {
				good = it.sameType(in.AssertedType, in.X.Type())
			} else {
				good = it.implements(ifc.t, idst)
			}
		}
		if good {
			v = ifc
		}
	} else if ifc.t != nil && it.sameType(ifc.t, in.AssertedType) {
		good = true
		v = copyVal(ifc.v)
	}
	if !good {
		if !in.CommaOk {
			it.rtPanic(fr, fmt.Sprintf("interface conversion: interface is %v, not %s", ifc.t, in.AssertedType))
		}
		v = zero(in.AssertedType)
	}
	if in.CommaOk {
		return Tuple{v, good}
	}
	return v
}

// opaqueResult builds the result of a call into a stubbed-out package.
func (it *Interp) opaqueResult(res *types.Tuple) Value {
	mk := func(t types.Type) Value {
		switch u := t.Underlying().(type) {
		case *types.Interface:
			if t.String() == "error" {
				return Iface{}
			}
			_ = u
			return Iface{t, &Opaque{t.String()}}
		case *types.Pointer:
			p := new(Value)
			*p = &Opaque{t.String()}
			return p
		}
		return zero(t)
	}
	switch res.Len() {
	case 0:
		return nil
	case 1:
		return mk(res.At(0).Type())
	}
	t := make(Tuple, res.Len())
	for i := range t {
		t[i] = mk(res.At(i).Type())
	}
	return t
}

var _ = big.NewInt
