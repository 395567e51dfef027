package main

import (
	"fmt"
	"go/token"
	"go/types"
	"math/big"
	"os"
	"os/exec"
	"path/filepath"
	"regexp"
	"sort"
	"strconv"
	"strings"
	"sync"
	"sync/atomic"
	"time"

	"golang.org/x/tools/go/packages"
	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/ssa/ssautil"
	"golang.org/x/tools/go/types/typeutil"
)

const modPath = "github.com/kacheio/kache"
const vfPkg = modPath + "/zzvf/vf"

// Engine holds the SSA program of the code under test and the exploration
// state shared by the workers.
type Engine struct {
	prog      *ssa.Program
	progMu    sync.Mutex
	cfns      sync.Map
	stats     *SolverStats
	debug     bool
	maxConc   int
	selectAll bool
	rtErrT    types.Type
	replace   map[string]*ssa.Function
	thorough  bool
	noDomains bool
	maxSteps  int
	maxGs     int // goroutines per path
	std       map[string]*ssa.Package

	assertsConc, assertsIval, assertsSolver int64
	confirms                                int64

	tkMu  sync.Mutex
	tkMap typeutil.Map
	tkN   int

	mainPkg *ssa.Package

	godebug map[string]string
}

// godebugDefaults returns the GODEBUG settings that differ from the default of
// the toolchain because of the go version in dir's go.mod.
func godebugDefaults(dir string) map[string]string {
	m := map[string]string{}
	mod, _ := os.ReadFile(filepath.Join(dir, "go.mod"))
	v := regexp.MustCompile(`(?m)^go 1\.(\d+)`).FindSubmatch(mod)
	out, err := exec.Command("go", "env", "GOROOT").Output()
	if v == nil || err != nil {
		return m
	}
	minor, _ := strconv.Atoi(string(v[1]))
	tab, _ := os.ReadFile(filepath.Join(strings.TrimSpace(string(out)), "src/internal/godebugs/table.go"))
	for _, e := range regexp.MustCompile(`\{Name: "(\w+)".*Changed: (\d+), Old: "(\w*)"`).FindAllSubmatch(tab, -1) {
		if c, _ := strconv.Atoi(string(e[2])); minor < c {
			m[string(e[1])] = string(e[3])
		}
	}
	return m
}

// opaquePrefixes lists packages whose functions are stubbed out: they return
// opaque or zero values and have no effect on the properties.
var opaquePrefixes = []string{
	"github.com/rs/zerolog", "github.com/prometheus/", "k8s.io/", "sigs.k8s.io/",
	"github.com/redis/go-redis", "github.com/go-redis/", "log", "log/slog", "log/internal",
	"net/http/pprof", "runtime/pprof", "runtime/trace", "expvar", "crypto/tls", "crypto/x509",
	"github.com/rueian/rueidis", "github.com/redis/rueidis", "google.golang.org/", "golang.org/x/net/http2", "golang.org/x/oauth2",
	"github.com/google/gnostic",
}

func (e *Engine) opaquePkg(path string) bool {
	for _, p := range opaquePrefixes {
		if path == p || strings.HasPrefix(path, p) && (strings.HasSuffix(p, "/") || len(path) > len(p) && path[len(p)] == '/') {
			return !transparent[path]
		}
	}
	return false
}

// transparent packages are interpreted although they match a prefix above.
var transparent = map[string]bool{
	"k8s.io/client-go/kubernetes": true, "k8s.io/client-go/kubernetes/typed/core/v1": true,
	"github.com/redis/go-redis/v9": true, "github.com/redis/go-redis/v9/internal/pool": true,
	"github.com/redis/go-redis/v9/internal/proto": true, "github.com/redis/go-redis/v9/internal": true,
	"github.com/redis/go-redis/v9/internal/util": true, "github.com/redis/go-redis/v9/internal/hashtag": true,
}

// raceIgnore: accesses made by these packages are not checked for races
// (their synchronisation is modelled by the intrinsics).
func (e *Engine) raceIgnore(pkg string) bool {
	return pkg == "sync" || pkg == "sync/atomic" || strings.HasPrefix(pkg, "internal/") || strings.HasPrefix(pkg, "runtime") ||
		pkg == "time" || pkg == "unique" || pkg == vfPkg
}

func loadEngine(dir string, overlay map[string][]byte, patterns []string, env []string) (*Engine, error) {
	cfg := &packages.Config{
		Mode:    packages.LoadAllSyntax,
		Dir:     dir,
		Overlay: overlay,
		Env:     env,
	}
	pkgs, err := packages.Load(cfg, patterns...)
	if err != nil {
		return nil, err
	}
	var errs []string
	packages.Visit(pkgs, nil, func(p *packages.Package) {
		if strings.HasPrefix(p.PkgPath, modPath) || len(p.Errors) > 0 && len(errs) < 5 {
			for _, e := range p.Errors {
				errs = append(errs, e.Error())
			}
		}
	})
	if len(errs) > 0 {
		return nil, fmt.Errorf("load: %s", strings.Join(errs, "\n"))
	}
	prog, spkgs := ssautil.AllPackages(pkgs, ssa.InstantiateGenerics)
	prog.Build()
	e := &Engine{prog: prog, stats: &SolverStats{}, maxConc: 300, replace: map[string]*ssa.Function{}, maxSteps: 3_000_000, godebug: godebugDefaults(dir), std: map[string]*ssa.Package{}}
	for _, p := range prog.AllPackages() {
		e.std[p.Pkg.Path()] = p
	}
	if rt := e.std["runtime"]; rt != nil {
		if tn, ok := rt.Members["errorString"].(*ssa.Type); ok {
			e.rtErrT = tn.Type()
		}
	}
	if e.rtErrT == nil {
		return nil, fmt.Errorf("no runtime.errorString")
	}
	e.mainPkg = spkgs[0]
	e.tkMap.SetHasher(typeutil.MakeHasher())
	return e, nil
}

func (e *Engine) typeKey(t types.Type) string {
	e.tkMu.Lock()
	defer e.tkMu.Unlock()
	if v := e.tkMap.At(t); v != nil {
		return v.(string)
	}
	e.tkN++
	s := fmt.Sprintf("T%d", e.tkN)
	e.tkMap.Set(t, s)
	return s
}

func (e *Engine) stdFunc(pkg, name string) *ssa.Function {
	p := e.std[pkg]
	if p == nil {
		panic(engineErr{"package " + pkg + " is not loaded", ""})
	}
	if i := strings.IndexByte(name, '.'); i > 0 {
		tn, ok := p.Members[name[:i]].(*ssa.Type)
		if !ok {
			panic(engineErr{"no type " + pkg + "." + name, ""})
		}
		e.progMu.Lock()
		defer e.progMu.Unlock()
		for _, t := range []types.Type{tn.Type(), types.NewPointer(tn.Type())} {
			ms := e.prog.MethodSets.MethodSet(t)
			for j := 0; j < ms.Len(); j++ {
				if s := ms.At(j); s.Obj().Name() == name[i+1:] {
					return e.prog.MethodValue(s)
				}
			}
		}
		panic(engineErr{"no method " + pkg + "." + name, ""})
	}
	f := p.Func(name)
	if f == nil {
		panic(engineErr{"no function " + pkg + "." + name, ""})
	}
	return f
}

func (e *Engine) stdType(pkg, name string) types.Type {
	p := e.std[pkg]
	if p == nil {
		panic(engineErr{"package " + pkg + " is not loaded", ""})
	}
	if tn, ok := p.Members[name].(*ssa.Type); ok {
		return tn.Type()
	}
	panic(engineErr{"no type " + pkg + "." + name, ""})
}

func intrName(fn *ssa.Function) string {
	if o := fn.Origin(); o != nil {
		return o.String()
	}
	return fn.String()
}

func (e *Engine) findIntrinsic(fn *ssa.Function) intrinsic {
	name := intrName(fn)
	if r, ok := e.replace[name]; ok && r != fn {
		return func(it *Interp, fr *Frame, _ *ssa.Function, args []Value) Value {
			return it.callFn(fr, r, args, nil)
		}
	}
	if in, ok := intrinsics[name]; ok {
		return in
	}
	if nf, ok := nativeFns[name]; ok {
		return nativeIntrinsic(name, nf)
	}
	if len(fn.Blocks) == 0 {
		if a, ok := asmGeneric[name]; ok {
			i := strings.LastIndexByte(a, '.')
			g := e.stdFunc(a[:i], a[i+1:])
			return func(it *Interp, fr *Frame, _ *ssa.Function, args []Value) Value {
				return it.callFn(fr, g, args, nil)
			}
		}
	}
	if fn.Name() == "init" && fn.Signature.Recv() == nil {
		return nil
	}
	if e.opaquePkg(fnPkgPath(fn)) {
		if fn.Parent() != nil {
			return nil
		}
		if fn.Synthetic != "" && fn.Pkg == nil && fn.Signature.Recv() != nil {
			if n, ok := deref(fn.Signature.Recv().Type()).(*types.Named); ok && n.Obj().Pkg() != nil && !e.opaquePkg(n.Obj().Pkg().Path()) {
				return nil
			}
		}
		return func(it *Interp, fr *Frame, fn *ssa.Function, args []Value) Value {
			return it.opaqueResult(fn.Signature.Results())
		}
	}
	return nil
}

// runBody executes the SSA body of fn although it has an intrinsic.
func (it *Interp) runBody(caller *Frame, fn *ssa.Function, args []Value) Value {
	c := it.e.cfnOf(fn)
	if c.external {
		it.unsupported(caller, "external function %s (intrinsic declined)", c.fullName)
	}
	depth := 0
	if caller != nil {
		depth = caller.depth + 1
	}
	fr := &Frame{it: it, c: c, regs: make([]Value, c.nregs), caller: caller, depth: depth}
	copy(fr.regs, args)
	it.funcs[fn]++
	return it.run(fr)
}

// ---- summaries of pure scalar functions ----

// classifyPure decides whether a function is a loop-free-of-effects scalar
// function (table look-ups such as character classification) that can be
// tabulated over a small symbolic argument.
func (e *Engine) classifyPure(c *cfn) {
	c.pure = 2
	fn := c.fn
	if len(fn.FreeVars) > 0 || len(fn.Params) == 0 || len(fn.Params) > 3 || strings.HasPrefix(c.pkgPath, modPath+"/zzvf") {
		return
	}
	scalar := func(t types.Type) bool {
		b, ok := t.Underlying().(*types.Basic)
		return ok && b.Info()&(types.IsInteger|types.IsBoolean) != 0
	}
	for _, p := range fn.Params {
		if !scalar(p.Type()) {
			return
		}
	}
	res := fn.Signature.Results()
	if res.Len() != 1 || !scalar(res.At(0).Type()) {
		return
	}
	for _, b := range fn.Blocks {
		for _, in := range b.Instrs {
			switch in := in.(type) {
			case *ssa.BinOp, *ssa.Convert, *ssa.ChangeType, *ssa.If, *ssa.Jump, *ssa.Return, *ssa.Phi, *ssa.DebugRef, *ssa.IndexAddr, *ssa.Index, *ssa.Lookup:
			case *ssa.UnOp:
				if in.Op.String() == "<-" {
					return
				}
				if in.Op.String() == "*" {
					// only loads from (constant) tables
					switch x := in.X.(type) {
					case *ssa.IndexAddr:
						if _, ok := x.X.(*ssa.Global); !ok {
							return
						}
					case *ssa.Global:
						if e.perPathPkg(c.pkgPath) {
							return
						}
					default:
						return
					}
				}
			case *ssa.Call:
				f := in.Call.StaticCallee()
				if f == nil || f == fn {
					return
				}
				cc := e.cfnOf(f)
				if cc.intr != nil || cc.external {
					return
				}
				if cc.pure == 0 {
					e.classifyPure(cc)
				}
				if cc.pure != 1 {
					return
				}
			default:
				return
			}
		}
	}
	c.pure = 1
}

func (it *Interp) summarise(caller *Frame, c *cfn, args []Value, env []Value) (Value, bool) {
	sym := -1
	for i, a := range args {
		if _, ok := a.(*Term); ok {
			if sym >= 0 {
				return nil, false
			}
			sym = i
		}
	}
	if sym < 0 || it.initing > 0 {
		return nil, false
	}
	t := args[sym].(*Term)
	if t.isBool() {
		return nil, false
	}
	lo, hi := it.ts.interval(t, it.p.bounds)
	if lo == nil || hi == nil || !lo.IsInt64() || !hi.IsInt64() || uint64(hi.Int64())-uint64(lo.Int64()) > 300 {
		return nil, false
	}
	l, h := lo.Int64(), hi.Int64()
	if c.pure2 == 0 {
		for _, b := range c.fn.Blocks {
			if len(b.Preds) > 1 || len(c.fn.Blocks) > 1 {
				c.pure2 = 2
			}
			for _, in := range b.Instrs {
				if o, ok := in.(*ssa.BinOp); ok && (o.Op == token.SHL || o.Op == token.SHR) {
					if _, ok := o.Y.(*ssa.Const); !ok {
						c.pure2 = 2
					}
				}
			}
		}
		if c.pure2 == 0 {
			c.pure2 = 1
		}
	}
	if c.pure2 == 1 {
		return nil, false // straight-line code: execute directly
	}
	vals := make([]Value, 0, h-l+1)
	as := append([]Value{}, args...)
	for i := uint64(0); i <= uint64(h)-uint64(l); i++ {
		as[sym] = l + int64(i)
		fr := &Frame{it: it, c: c, regs: make([]Value, c.nregs), caller: caller, depth: 1}
		if caller != nil {
			fr.depth = caller.depth + 1
		}
		copy(fr.regs, as)
		r, ok := it.trySummary(fr)
		if !ok {
			return nil, false
		}
		vals = append(vals, r)
	}
	it.funcs[c.fn]++
	// iteLookup is indexed from zero
	off := it.simp(it.ts.Sub(t, it.ts.Int(l)))
	ot, ok := off.(*Term)
	if !ok {
		return vals[off.(int64)], true
	}
	return it.iteLookup(vals, ot)
}

func (it *Interp) trySummary(fr *Frame) (v Value, ok bool) {
	defer func() {
		if r := recover(); r != nil {
			if _, is := r.(targetPanic); is {
				ok = false
				return
			}
			panic(r)
		}
	}()
	v = it.run(fr)
	switch v.(type) {
	case int64, bool:
		return v, true
	}
	return nil, false
}

// ---- exploration ----

type Worker struct {
	e      *Engine
	ts     *TermStore
	solver *Solver
	it     *Interp
	x      *explorer
	id     int
}

type workItem struct {
	d    []Decision
	hint map[string]*big.Int
}

// forkSites counts where paths fork (VF_FORKS set).
var (
	forkSites   map[string]int
	forkSitesMu sync.Mutex
)

func (w *Worker) addWork(alt []Decision, m *evaluator) {
	if forkSites != nil && w.it != nil && w.it.top != nil {
		s := string(alt[len(alt)-1].K) + " " + w.it.where(w.it.top)
		forkSitesMu.Lock()
		forkSites[s]++
		forkSitesMu.Unlock()
	}
	it := workItem{d: alt}
	if m != nil {
		it.hint = m.named()
	}
	w.x.push(it)
}

type explorer struct {
	e     *Engine
	mu    sync.Mutex
	cond  *sync.Cond
	work  []workItem
	busy  int
	stop  bool
	entry *ssa.Function

	deadline time.Time
	maxPaths int

	res HarnessResult
	rng uint64
}

type PathSample struct {
	Inputs   []InputVal `json:"inputs"`
	Observed []string   `json:"observed"`
	Labels   []string   `json:"labels"`
}

type HarnessResult struct {
	Name       string
	Paths      int
	Completed  int
	Assumed    int
	Exited     int
	Infeas     int
	Bounded    map[string]int
	Partial    map[string]int
	Errors     map[string]int
	Branches   int64
	Steps      int64
	Asserts    int64
	Reached    map[string]int
	Viols      []*Violation
	Samples    []PathSample
	Funcs      map[string]int64
	Pending    int
	MaxPC      int
	Sched      int64
	Stats      SolverStats
	Wall       float64
	AC, AI, AS int64
	MaxGs      int
}

func (x *explorer) push(d workItem) {
	x.mu.Lock()
	x.work = append(x.work, d)
	x.mu.Unlock()
	x.cond.Signal()
}

func (x *explorer) pop() (workItem, bool) {
	x.mu.Lock()
	defer x.mu.Unlock()
	for {
		if x.stop {
			return workItem{}, false
		}
		if len(x.work) > 0 {
			if x.res.Paths >= x.maxPaths || time.Now().After(x.deadline) {
				x.stop = true
				x.cond.Broadcast()
				return workItem{}, false
			}
			// depth first, but workers that are idle take from the front
			n := len(x.work) - 1
			if x.rng != 0 && len(x.work) > 16 {
				x.rng = x.rng*6364136223846793005 + 1442695040888963407
				if (x.rng>>33)%4 == 0 {
					k := int((x.rng >> 40) % uint64(len(x.work)))
					x.work[k], x.work[n] = x.work[n], x.work[k]
				}
			}
			d := x.work[n]
			x.work = x.work[:n]
			x.busy++
			x.res.Paths++
			return d, true
		}
		if x.busy == 0 {
			x.cond.Broadcast()
			return workItem{}, false
		}
		x.cond.Wait()
	}
}

func (x *explorer) done() {
	x.mu.Lock()
	x.busy--
	if x.busy == 0 && len(x.work) == 0 {
		x.cond.Broadcast()
	}
	x.mu.Unlock()
}

func (e *Engine) explore(entry *ssa.Function, workers int, budget time.Duration, maxPaths int, seed uint64) *HarnessResult {
	x := &explorer{e: e, entry: entry, deadline: time.Now().Add(budget), maxPaths: maxPaths, rng: seed*2 + 1}
	x.cond = sync.NewCond(&x.mu)
	x.res = HarnessResult{Name: entry.Name(), Bounded: map[string]int{}, Partial: map[string]int{}, Errors: map[string]int{}, Reached: map[string]int{}, Funcs: map[string]int64{}}
	x.work = append(x.work, workItem{})
	atomic.StoreInt64(&e.confirms, 0)
	s0 := *e.stats
	a0, a1, a2 := atomic.LoadInt64(&e.assertsConc), atomic.LoadInt64(&e.assertsIval), atomic.LoadInt64(&e.assertsSolver)
	start := time.Now()
	var wg sync.WaitGroup
	for i := 0; i < workers; i++ {
		wg.Add(1)
		go func(i int) {
			defer wg.Done()
			x.worker(i)
		}(i)
	}
	wg.Wait()
	x.res.Pending = len(x.work)
	x.res.Wall = time.Since(start).Seconds()
	s1 := *e.stats
	x.res.Stats = SolverStats{queries: s1.queries - s0.queries, sat: s1.sat - s0.sat, unsat: s1.unsat - s0.unsat, unknown: s1.unknown - s0.unknown,
		fallback: s1.fallback - s0.fallback, nanos: s1.nanos - s0.nanos, maxNanos: s1.maxNanos, errors: s1.errors - s0.errors,
		models: s1.models - s0.models, intervals: s1.intervals - s0.intervals, cross: s1.cross - s0.cross, domains: s1.domains - s0.domains, repairs: s1.repairs - s0.repairs, confirmed: s1.confirmed - s0.confirmed, crossDisagree: s1.crossDisagree - s0.crossDisagree}
	x.res.AC = atomic.LoadInt64(&e.assertsConc) - a0
	x.res.AI = atomic.LoadInt64(&e.assertsIval) - a1
	x.res.AS = atomic.LoadInt64(&e.assertsSolver) - a2
	return &x.res
}

func (x *explorer) worker(id int) {
	w := &Worker{e: x.e, x: x, id: id}
	var started bool
	defer func() {
		if w.solver != nil {
			w.solver.close()
		}
	}()
	mkInterp := func() {
		if w.solver != nil {
			w.solver.close()
		}
		var funcs map[*ssa.Function]int64
		if w.it != nil {
			funcs = w.it.funcs
		}
		w.ts = newTermStore()
		w.solver = newSolver(w.ts, x.e.stats)
		if w.it == nil {
			w.it = newInterp(x.e, w)
		} else {
			// std globals are concrete; keep them
			w.it.ts = w.ts
		}
		if funcs != nil {
			w.it.funcs = funcs
		}
		started = true
	}
	nsamp := 0
	for {
		d, ok := x.pop()
		if !ok {
			break
		}
		if !started || len(w.ts.all) > 400_000 {
			mkInterp()
		}
		it := w.it
		it.resetPathGlobals()
		p := newPath(d.d, x.e.maxSteps)
		p.hint = d.hint
		it.p = p
		it.initing = 0
		res := it.runPath(func() { it.callFn(nil, x.entry, nil, nil) })
		kind := res.kind
		msg := res.msg
		if kind == "end" {
			kind = msg
		}
		// settle the last segment: a path that ended without a model may be
		// infeasible after assumptions taken during replay
		var samp *PathSample
		if kind == "ok" && len(x.res.Samples) < 4000 && (nsamp < 40 || nsamp%7 == 0) {
			samp = it.sample()
		}
		nsamp++
		x.mu.Lock()
		r := &x.res
		r.Branches += int64(len(p.trail))
		r.Steps += int64(p.steps)
		r.Asserts += int64(p.asserts)
		r.Sched += int64(len(p.schedule))
		if len(p.gs) > r.MaxGs {
			r.MaxGs = len(p.gs)
		}
		if len(p.pc) > r.MaxPC {
			r.MaxPC = len(p.pc)
		}
		for k, n := range p.partial {
			r.Partial[k] += n
		}
		for k := range p.reached {
			r.Reached[k]++
		}
		for _, kv := range p.knownV {
			n := 0
			for _, v := range r.Viols {
				if v.Kind == "known" && v.KnownID == kv.KnownID {
					n++
				}
			}
			if n < 3 {
				r.Viols = append(r.Viols, kv)
			}
		}
		switch {
		case kind == "ok":
			r.Completed++
			if samp != nil {
				r.Samples = append(r.Samples, *samp)
			}
		case kind == "assume":
			r.Assumed++
		case kind == "infeasible":
			r.Infeas++
		case kind == "exit":
			r.Exited++
		case kind == "violation":
			if p.viol != nil {
				r.Viols = append(r.Viols, p.viol)
				if len(r.Viols) >= 40 {
					x.stop = true
					x.cond.Broadcast()
				}
			}
		case strings.HasPrefix(kind, "bound:"):
			r.Bounded[kind[6:]]++
		default:
			r.Errors[msg+" @ "+res.where]++
		}
		x.mu.Unlock()
		x.done()
		if x.e.debug {
			fmt.Fprintf(os.Stderr, "[%d] path %s %s (%d steps, %d decisions) %s\n", id, kind, msg, p.steps, len(p.trail), p.labels)
		}
	}
	if w.it != nil {
		x.mu.Lock()
		for f, n := range w.it.funcs {
			x.res.Funcs[f.String()] += n
		}
		x.mu.Unlock()
	}
}

// sample evaluates the inputs and observations of a completed path under a
// model of its path condition.
func (it *Interp) sample() (s *PathSample) {
	defer func() {
		if r := recover(); r != nil {
			s = nil
		}
	}()
	it.ensureModelFresh()
	m := it.p.model
	s = &PathSample{Inputs: it.inputVals(m), Labels: append([]string{}, it.p.labels...)}
	for _, o := range it.p.observedV {
		s.Observed = append(s.Observed, it.evalShow(m, o))
	}
	return s
}

// evalShow renders a value under a model.
func (it *Interp) evalShow(m *evaluator, v Value) string {
	switch v := v.(type) {
	case string:
		return v
	case int64:
		return fmt.Sprint(v)
	case bool:
		return fmt.Sprint(v)
	case *Term:
		if v.isBool() {
			return fmt.Sprint(m.Bool(v))
		}
		return fmt.Sprint(it.simp(it.ts.Big(m.Int(v))))
	case *SStr:
		var b strings.Builder
		for _, g := range v.segs {
			if g.l != nil {
				b.WriteString(g.l.render(m.Int(g.l.t).Int64()))
				continue
			}
			for _, x := range g.b {
				switch x := x.(type) {
				case int64:
					b.WriteByte(byte(x))
				case *Term:
					b.WriteByte(byte(m.Int(x).Int64()))
				}
			}
		}
		return b.String()
	case Tuple:
		s := ""
		for _, x := range v {
			s += it.evalShow(m, x)
		}
		return s
	}
	return showVal(v)
}

// applyReplace honours "//vf:replace=f1->g1,f2->g2" harness options: calls of
// the first function run the harness function instead.
func (e *Engine) applyReplace(p *ssa.Package, h *Harness) {
	e.replace = map[string]*ssa.Function{}
	for _, kv := range strings.Split(h.Opts["replace"], ",") {
		k, v, ok := strings.Cut(kv, "->")
		if !ok {
			continue
		}
		if f := p.Func(v); f != nil {
			e.replace[k] = f
		}
	}
	if len(e.replace) > 0 {
		e.cfns.Range(func(k, _ any) bool { e.cfns.Delete(k); return true })
	}
}

func newPath(d []Decision, maxSteps int) *Path {
	tr := make([]Decision, len(d), len(d)+64)
	copy(tr, d)
	return &Path{
		doms: map[*Term]*[4]uint64{}, byVar: map[*Term][]*Term{}, pend: map[*Term][]*Term{}, inS: map[*Term]bool{},
		trail: tr, given: len(d), bounds: boundsMap{}, maxSteps: maxSteps,
		nvar: map[string]int{}, partial: map[string]int{}, reached: map[string]bool{},
		now:     int64(0),
		mutexes: map[*Value]*mutexSt{}, conds: map[*Value]*condSt{}, wgs: map[*Value]*wgSt{},
		pools: map[*Value]*poolSt{}, onces: map[*Value]*onceSt{}, atoms: map[*Value]*atomSt{}, builders: map[*Value]*builderSt{},
		side: map[string]any{}, files: map[string]Value{},
	}
}

func sortedKeys[V any](m map[string]V) []string {
	ks := make([]string, 0, len(m))
	for k := range m {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	return ks
}
