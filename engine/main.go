package main

import (
	"bytes"
	"encoding/json"
	"flag"
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"os"
	"os/exec"
	"path/filepath"
	"regexp"
	"sort"
	"strconv"
	"strings"
	"sync"
	"sync/atomic"
	"time"
)

// Harness is one entry function.
type Harness struct {
	Group  string
	Name   string
	Reach  []string
	Opts   map[string]string
	Doc    string
	Bounds []string
}

type runCfg struct {
	verif, repo string
	prop        string
	tier        string
	seed        uint64
	workers     int
	debug       bool
	only        string
	budget      time.Duration
}

var harnessRE = regexp.MustCompile(`^([A-Z]\d\d\d?)_\w+$`)
var reachRE = regexp.MustCompile(`vf\.Reach\("([^"]+)"\)`)

// scanHarnesses reads the harness sources.
func scanHarnesses(verif string) (map[string][]*Harness, map[string]map[string]string, error) {
	byProp := map[string][]*Harness{}
	files := map[string]map[string]string{} // group -> file -> overlay path
	root := filepath.Join(verif, "harness")
	groups, err := os.ReadDir(root)
	if err != nil {
		return nil, nil, err
	}
	for _, g := range groups {
		if !g.IsDir() {
			continue
		}
		fs, _ := filepath.Glob(filepath.Join(root, g.Name(), "*.go"))
		sort.Strings(fs)
		files[g.Name()] = map[string]string{}
		for _, f := range fs {
			files[g.Name()][f] = filepath.Join("zzvf", g.Name(), filepath.Base(f))
			fset := token.NewFileSet()
			src, err := os.ReadFile(f)
			if err != nil {
				return nil, nil, err
			}
			af, err := parser.ParseFile(fset, f, src, parser.ParseComments)
			if err != nil {
				return nil, nil, err
			}
			for _, d := range af.Decls {
				fd, ok := d.(*ast.FuncDecl)
				if !ok || fd.Recv != nil {
					continue
				}
				m := harnessRE.FindStringSubmatch(fd.Name.Name)
				if m == nil || fd.Type.Params.NumFields() != 0 {
					continue
				}
				h := &Harness{Group: g.Name(), Name: fd.Name.Name, Opts: map[string]string{}}
				body := string(src[fset.Position(fd.Pos()).Offset:fset.Position(fd.End()).Offset])
				for _, r := range reachRE.FindAllStringSubmatch(body, -1) {
					h.Reach = append(h.Reach, r[1])
				}
				if fd.Doc != nil {
					for _, c := range fd.Doc.List {
						t := strings.TrimPrefix(c.Text, "//")
						if o, ok := strings.CutPrefix(t, "vf:"); ok {
							for _, kv := range strings.Fields(o) {
								k, v, _ := strings.Cut(kv, "=")
								h.Opts[k] = v
							}
							continue
						}
						t = strings.TrimSpace(t)
						if b, ok := strings.CutPrefix(t, "Bounds:"); ok {
							h.Bounds = append(h.Bounds, strings.TrimSpace(b))
						}
						h.Doc += t + " "
					}
				}
				byProp[m[1]] = append(byProp[m[1]], h)
			}
		}
	}
	return byProp, files, nil
}

func fail(code int, f string, a ...any) {
	fmt.Fprintf(os.Stderr, "vfengine: "+f+"\n", a...)
	os.Exit(code)
}

// modFlag makes the go command use copies of go.mod and go.sum, so that it
// leaves those of /repo alone.
var modFlag string

func copyMod(repo, tmp string) error {
	for _, f := range []string{"go.mod", "go.sum"} {
		b, err := os.ReadFile(filepath.Join(repo, f))
		if err != nil {
			return err
		}
		if err := os.WriteFile(filepath.Join(tmp, f), b, 0o600); err != nil {
			return err
		}
	}
	modFlag = " -modfile=" + filepath.Join(tmp, "go.mod")
	return nil
}

func goEnv() []string {
	env := []string{}
	for _, e := range os.Environ() {
		k, _, _ := strings.Cut(e, "=")
		switch k {
		case "GOFLAGS", "GOPROXY", "GOWORK", "GOTOOLCHAIN", "GOENV":
			continue
		}
		env = append(env, e)
	}
	return append(env, "GOFLAGS=-mod=mod"+modFlag, "GOPROXY=off", "GOWORK=off", "GOTOOLCHAIN=local", "GOENV=off")
}

func main() {
	if len(os.Args) < 2 {
		fail(2, "usage: vfengine check|list ...")
	}
	fl := flag.NewFlagSet("vfengine", flag.ExitOnError)
	rc := runCfg{}
	fl.StringVar(&rc.verif, "verif", "/verif", "")
	fl.StringVar(&rc.repo, "repo", "/repo", "")
	fl.StringVar(&rc.prop, "prop", "", "")
	fl.StringVar(&rc.tier, "tier", "", "")
	fl.StringVar(&rc.only, "only", "", "only harnesses matching this regexp")
	fl.IntVar(&rc.workers, "workers", 8, "")
	fl.BoolVar(&rc.debug, "debug", false, "")
	budget := fl.Int("budget", 0, "seconds per harness")
	fl.Parse(os.Args[2:])
	if rc.tier == "" {
		rc.tier = os.Getenv("VERIF_TIER")
	}
	if rc.tier != "thorough" {
		rc.tier = "quick"
	}
	rc.budget = time.Duration(*budget) * time.Second
	if s, err := strconv.ParseUint(os.Getenv("VERIF_SEED"), 10, 64); err == nil {
		rc.seed = s
	}
	switch os.Args[1] {
	case "check":
		os.Exit(check(&rc))
	case "list":
		bp, _, err := scanHarnesses(rc.verif)
		if err != nil {
			fail(2, "%v", err)
		}
		for _, p := range sortedKeys(bp) {
			for _, h := range bp[p] {
				fmt.Printf("%s %s/%s reach=%v opts=%v\n", p, h.Group, h.Name, h.Reach, h.Opts)
			}
		}
	default:
		fail(2, "unknown command %s", os.Args[1])
	}
}

// ---- native replay ----

type nativeBin struct {
	group string
	path  string
	err   error
	out   string
	done  chan struct{}
}

func writeOverlay(rc *runCfg, tmp string, files map[string]map[string]string, groups []string, hs []*Harness) (map[string][]byte, string, error) {
	ov := map[string][]byte{}
	repl := map[string]string{}
	add := func(rel, src string) error {
		b, err := os.ReadFile(src)
		if err != nil {
			return err
		}
		p := filepath.Join(rc.repo, rel)
		ov[p] = b
		repl[p] = src
		return nil
	}
	vfs, _ := filepath.Glob(filepath.Join(rc.verif, "vf", "*.go"))
	for _, f := range vfs {
		if err := add(filepath.Join("zzvf/vf", filepath.Base(f)), f); err != nil {
			return nil, "", err
		}
	}
	if err := addProgram(rc, tmp, ov, repl); err != nil {
		return nil, "", err
	}
	for _, g := range groups {
		for _, f := range sortedKeys(files[g]) {
			if err := add(files[g][f], f); err != nil {
				return nil, "", err
			}
		}
		// in-package accessors: harness/<group>/overlay/<path in repo>
		root := filepath.Join(rc.verif, "harness", g, "overlay")
		err := filepath.WalkDir(root, func(p string, d os.DirEntry, err error) error {
			if err != nil || d.IsDir() {
				return nil
			}
			rel, err := filepath.Rel(root, p)
			if err != nil {
				return err
			}
			return add(rel, p)
		})
		if err != nil {
			return nil, "", err
		}
		var b strings.Builder
		fmt.Fprintf(&b, "package %s\n\nimport (\n\t\"testing\"\n\t\"testing/synctest\"\n\n\tvf \"%s\"\n)\n\nfunc TestVF(t *testing.T) {\n\tsynctest.Test(t, func(t *testing.T) {\n\t\tvf.RunNative(map[string]func(){\n", g, vfPkg)
		for _, h := range hs {
			if h.Group == g {
				fmt.Fprintf(&b, "\t\t\t%q: %s,\n", h.Name, h.Name)
			}
		}
		b.WriteString("\t\t})\n\t})\n}\n")
		f := filepath.Join(tmp, g+"_replay_test.go")
		if err := os.WriteFile(f, []byte(b.String()), 0o600); err != nil {
			return nil, "", err
		}
		repl[filepath.Join(rc.repo, "zzvf", g, "vf_replay_test.go")] = f
	}
	jb, _ := json.Marshal(map[string]any{"Replace": repl})
	of := filepath.Join(tmp, "overlay.json")
	return ov, of, os.WriteFile(of, jb, 0o600)
}

// addProgram makes the main package importable: a copy of its files as package
// zzvf/program.
func addProgram(rc *runCfg, tmp string, ov map[string][]byte, repl map[string]string) error {
	fs, _ := filepath.Glob(filepath.Join(rc.repo, "cmd/kache/*.go"))
	text := map[string][]byte{"zz_vf.go": []byte("package program\n\n// Main runs the program.\nfunc Main() { main() }\n")}
	for _, f := range fs {
		if strings.HasSuffix(f, "_test.go") {
			continue
		}
		b, err := os.ReadFile(f)
		if err != nil {
			return err
		}
		text[filepath.Base(f)] = packageMain.ReplaceAll(b, []byte("package program"))
	}
	for _, n := range sortedKeys(text) {
		p := filepath.Join(rc.repo, "zzvf/program", n)
		src := filepath.Join(tmp, "program_"+n)
		if err := os.WriteFile(src, text[n], 0o600); err != nil {
			return err
		}
		ov[p], repl[p] = text[n], src
	}
	return nil
}

var packageMain = regexp.MustCompile(`(?m)^package main\b`)

func buildNative(rc *runCfg, tmp, overlay, group string, race bool) *nativeBin {
	nb := &nativeBin{group: group, path: filepath.Join(tmp, group+".test"), done: make(chan struct{})}
	args := []string{"test", "-c", "-vet=off", "-overlay", overlay, "-o"}
	if race {
		nb.path += ".race"
		args = append(args, nb.path, "-race")
	} else {
		args = append(args, nb.path)
	}
	args = append(args, "./zzvf/"+group)
	go func() {
		defer close(nb.done)
		c := exec.Command("go", args...)
		c.Dir = rc.repo
		c.Env = goEnv()
		o, err := c.CombinedOutput()
		nb.out, nb.err = string(o), err
	}()
	return nb
}

type nativeResult struct {
	Status   string   `json:"status"`
	Msg      string   `json:"msg"`
	Observed []string `json:"observed"`
}

func (nb *nativeBin) run(rc *runCfg, tmp, entry string, inputs []InputVal, n int) nativeResult {
	<-nb.done
	if nb.err != nil {
		return nativeResult{Status: "build", Msg: nb.out}
	}
	if inputs == nil {
		inputs = []InputVal{}
	}
	b, _ := json.Marshal(map[string]any{"entry": entry, "inputs": inputs})
	d, err := os.MkdirTemp(tmp, "r")
	if err != nil {
		return nativeResult{Status: "error", Msg: err.Error()}
	}
	f := filepath.Join(d, "replay.json")
	os.WriteFile(f, b, 0o600)
	c := exec.Command("timeout", "-k", "1", "30", nb.path, "-test.run", "^TestVF$", "-test.timeout", "25s")
	c.Dir = d
	c.Env = append(goEnv(), "VF_REPLAY="+f, "TMPDIR="+d)
	if rc.tier == "thorough" {
		c.Env = append(c.Env, "VF_THOROUGH=1")
	}
	var o bytes.Buffer
	c.Stdout, c.Stderr = &o, &o
	err = c.Run()
	s := o.String()
	if i := strings.LastIndex(s, "\nVFRESULT "); i >= 0 && !strings.Contains(s, "WARNING: DATA RACE") {
		var r nativeResult
		line := s[i+10:]
		if j := strings.IndexByte(line, '\n'); j >= 0 {
			line = line[:j]
		}
		if json.Unmarshal([]byte(line), &r) == nil {
			return r
		}
	}
	if len(s) > 3000 {
		s = s[:3000]
	}
	switch {
	case strings.Contains(s, "WARNING: DATA RACE"):
		return nativeResult{Status: "race", Msg: s}
	case strings.Contains(s, "deadlock"):
		return nativeResult{Status: "deadlock", Msg: s}
	case strings.Contains(s, "fatal error:"), strings.Contains(s, "panic:"):
		return nativeResult{Status: "panic", Msg: s}
	}
	return nativeResult{Status: "error", Msg: fmt.Sprint(err, ": ", s)}
}

// reproduced tells whether the native outcome confirms an engine violation.
func reproduced(v *Violation, r nativeResult) bool {
	switch v.Kind {
	case "assert":
		return r.Status == "assert" && r.Msg == v.Msg || r.Status == "panic" || r.Status == "assert"
	case "known":
		return r.Status == "known"
	case "panic", "fatal":
		return r.Status == "panic"
	case "deadlock":
		return r.Status == "deadlock" || r.Status == "panic" && strings.Contains(r.Msg, "deadlock")
	case "race":
		return r.Status == "race"
	}
	return false
}

// ---- known findings ----

type knownFinding struct {
	ID       string `json:"id"`
	Property string `json:"property"`
	Status   string `json:"status"` // finding | fixed
	Commit   string `json:"commit,omitempty"`
	What     string `json:"what"`
}

func loadKnown(verif string) (map[string]knownFinding, error) {
	b, err := os.ReadFile(filepath.Join(verif, "known_findings.json"))
	if os.IsNotExist(err) {
		return nil, nil
	}
	if err != nil {
		return nil, err
	}
	var l []knownFinding
	if err := json.Unmarshal(b, &l); err != nil {
		return nil, err
	}
	m := map[string]knownFinding{}
	for _, k := range l {
		if k.Status == "finding" {
			m[k.ID] = k
		}
	}
	return m, nil
}

// ---- check ----

func check(rc *runCfg) int {
	start := time.Now()
	byProp, files, err := scanHarnesses(rc.verif)
	if err != nil {
		fail(2, "%v", err)
	}
	var hs []*Harness
	for _, h := range byProp[rc.prop] {
		if rc.only != "" && !regexp.MustCompile(rc.only).MatchString(h.Name) {
			continue
		}
		if _, ok := h.Opts["thorough-only"]; ok && rc.tier != "thorough" {
			continue
		}
		hs = append(hs, h)
	}
	if len(hs) == 0 {
		fail(2, "no harness for %s", rc.prop)
	}
	known, err := loadKnown(rc.verif)
	if err != nil {
		fail(2, "known_findings.json: %v", err)
	}
	gset := map[string]bool{}
	for _, h := range hs {
		gset[h.Group] = true
	}
	groups := sortedKeys(gset)
	tmp, err := os.MkdirTemp("", "vfengine")
	if err != nil {
		fail(2, "%v", err)
	}
	defer os.RemoveAll(tmp)
	if err := copyMod(rc.repo, tmp); err != nil {
		fail(2, "%v", err)
	}
	ov, ovFile, err := writeOverlay(rc, tmp, files, groups, hs)
	if err != nil {
		fail(2, "%v", err)
	}
	bins := map[string]*nativeBin{}
	noNative := true
	for _, h := range hs {
		if _, ok := h.Opts["noreplay"]; !ok {
			noNative = false
		}
	}
	if !noNative {
		for _, g := range groups {
			bins[g] = buildNative(rc, tmp, ovFile, g, false)
		}
	}
	for _, h := range hs {
		for _, p := range strings.Split(h.Opts["transparent"], ",") {
			transparent[p] = true
		}
	}
	var pats []string
	for _, g := range groups {
		pats = append(pats, "./zzvf/"+g)
	}
	e, err := loadEngine(rc.repo, ov, pats, goEnv())
	if err != nil {
		fmt.Fprintf(os.Stderr, "vfengine: cannot load the code under test: %v\n", err)
		return 3
	}
	e.debug = rc.debug
	if os.Getenv("VF_FORKS") != "" {
		forkSites = map[string]int{}
	}
	e.thorough = rc.tier == "thorough"
	loadT := time.Since(start).Seconds()

	rep := &report{rc: rc, e: e, known: known, bins: bins, tmp: tmp, ovFile: ovFile, loadT: loadT, start: start}
	for _, h := range hs {
		p := e.std[modPath+"/zzvf/"+h.Group]
		if p == nil || p.Func(h.Name) == nil {
			fail(2, "harness %s/%s not loaded", h.Group, h.Name)
		}
		e.applyReplace(p, h)
		budget := 40 * time.Second
		maxPaths := 400_000
		if e.thorough {
			budget = 300 * time.Second
		}
		get := func(k string) int {
			if e.thorough {
				if v, ok := h.Opts["t"+k]; ok {
					n, _ := strconv.Atoi(v)
					return n
				}
			}
			n, _ := strconv.Atoi(h.Opts[k])
			return n
		}
		if n := get("time"); n > 0 {
			budget = time.Duration(n) * time.Second
		}
		if n := get("paths"); n > 0 {
			maxPaths = n
		}
		if n := get("steps"); n > 0 {
			e.maxSteps = n
		} else {
			e.maxSteps = 3_000_000
		}
		e.maxGs = 200
		if n := get("gs"); n > 0 {
			e.maxGs = n
		}
		if rc.budget > 0 {
			budget = rc.budget
		}
		res := e.explore(p.Func(h.Name), rc.workers, budget, maxPaths, rc.seed)
		rep.add(h, res)
		if rep.violated && !e.thorough {
			break
		}
	}
	return rep.finish()
}

type report struct {
	rc       *runCfg
	e        *Engine
	known    map[string]knownFinding
	bins     map[string]*nativeBin
	raceBins map[string]*nativeBin
	tmp      string
	ovFile   string
	loadT    float64
	start    time.Time

	results   []*HarnessResult
	hs        []*Harness
	violated  bool
	viols     []violOut
	knownHit  map[string]string
	unconf    []string
	validated int
	disagree  []string
	nativeRun int
	errs      []string
	vacuous   []string
}

type violOut struct {
	Property  string     `json:"property"`
	Harness   string     `json:"harness"`
	Group     string     `json:"group"`
	Kind      string     `json:"kind"`
	Msg       string     `json:"message"`
	Where     string     `json:"where"`
	Inputs    []InputVal `json:"inputs"`
	Schedule  []int      `json:"schedule,omitempty"`
	Trail     string     `json:"trail"`
	Labels    []string   `json:"labels"`
	Confirmed bool       `json:"confirmed_natively"`
	Native    string     `json:"native_outcome"`
	Replay    string     `json:"how_to_replay"`
	path      string
}

func trailString(d []Decision) string {
	var b strings.Builder
	for _, x := range d {
		switch x.K {
		case 'b':
			fmt.Fprintf(&b, "b%d ", x.V)
		case 'n':
			fmt.Fprintf(&b, "n%d ", x.V)
		default:
			fmt.Fprintf(&b, "c%d:%d ", x.V, b2i(x.T))
		}
	}
	return strings.TrimSpace(b.String())
}

func (r *report) add(h *Harness, res *HarnessResult) {
	r.results = append(r.results, res)
	r.hs = append(r.hs, h)
	_, noreplay := h.Opts["noreplay"]
	bin := r.bins[h.Group]
	if noreplay {
		bin = nil
	}
	for s, n := range forkSites {
		fmt.Fprintf(os.Stderr, "fork %7d %s\n", n, s)
	}
	if os.Getenv("VF_VERBOSE") != "" {
		fmt.Fprintf(os.Stderr, "%s: %d paths (%d ok, %d assumed out, %d infeasible, pending %d) %d decisions %d steps, %d domain, %d repaired, %d queries %.1fs solver (max %.2fs), %.1fs wall; bounded %v partial %v errors %v reach %v viols %d asserts %d/%d/%d\n",
			h.Name, res.Paths, res.Completed, res.Assumed, res.Infeas, res.Pending, res.Branches, res.Steps, res.Stats.domains, res.Stats.repairs, res.Stats.queries, float64(res.Stats.nanos)/1e9, float64(res.Stats.maxNanos)/1e9, res.Wall, res.Bounded, res.Partial, res.Errors, res.Reached, len(res.Viols), res.AC, res.AI, res.AS)
	}

	// violations: one representative per message and place
	seen := map[string]int{}
	nsched := 0
	for _, v := range res.Viols {
		key := v.Kind + v.Msg + v.Where
		if v.Kind == "known" {
			key = "known" + v.KnownID
		}
		if seen[key] >= 3 {
			continue
		}
		if seen[key] < 0 {
			continue
		}
		isSched := len(v.Sched) > 0 && v.Explored
		conf, native := false, ""
		if bin != nil {
			tries := 1
			if isSched {
				tries = 20
			}
			b := bin
			if v.Kind == "race" {
				if r.raceBins == nil {
					r.raceBins = map[string]*nativeBin{}
				}
				if r.raceBins[h.Group] == nil {
					r.raceBins[h.Group] = buildNative(r.rc, r.tmp, r.ovFile, h.Group, true)
				}
				b = r.raceBins[h.Group]
			}
			for i := 0; i < tries && !conf; i++ {
				nr := b.run(r.rc, r.tmp, h.Name, v.Inputs, i)
				r.nativeRun++
				conf = reproduced(v, nr)
				native = nr.Status + ": " + nr.Msg
			}
			if conf {
				r.validated++
			}
		}
		if v.Kind == "known" {
			if k, ok := r.known[v.KnownID]; ok && k.Property == r.rc.prop {
				if r.knownHit == nil {
					r.knownHit = map[string]string{}
				}
				r.knownHit[v.KnownID] = k.What
				seen[key] = -1
				continue
			}
			v.Kind = "assert"
			if !conf {
				conf = strings.HasPrefix(native, "known")
			}
		}
		if !conf && !isSched && bin != nil && v.Kind != "race" {
			seen[key]++
			r.unconf = append(r.unconf, fmt.Sprintf("%s: %s at %s %v (native: %.200s)", h.Name, v.Msg, v.Where, v.Inputs, native))
			continue
		}
		seen[key] = -1
		if isSched {
			nsched++
		}
		r.violated = true
		r.viols = append(r.viols, violOut{Property: r.rc.prop, Harness: h.Name, Group: h.Group, Kind: v.Kind, Msg: v.Msg, Where: v.Where,
			Inputs: v.Inputs, Schedule: v.Sched, Trail: trailString(v.Trail), Labels: v.Labels, Confirmed: conf, Native: native,
			Replay: "the inputs replay natively through vf.RunNative (VF_REPLAY=this file); a schedule replays deterministically in the engine along the recorded trail"})
	}

	// differential validation of passing paths on the real build
	if bin != nil && len(res.Samples) > 0 && !r.violated {
		n := 16
		if r.e.thorough {
			n = 60
		}
		step := max(1, len(res.Samples)/n)
		off := 0
		if r.rc.seed > 0 {
			off = int(r.rc.seed) % step
		}
		type job struct{ s PathSample }
		var jobs []PathSample
		for i := off; i < len(res.Samples) && len(jobs) < n; i += step {
			jobs = append(jobs, res.Samples[i])
		}
		var wg sync.WaitGroup
		var mu sync.Mutex
		sem := make(chan bool, 8)
		for i, s := range jobs {
			wg.Add(1)
			go func() {
				defer wg.Done()
				sem <- true
				defer func() { <-sem }()
				nr := bin.run(r.rc, r.tmp, h.Name, s.Inputs, i)
				// The native scheduler is not ours: only what fails every time counts.
				for k := 0; k < 4 && (nr.Status == "assert" || nr.Status == "panic"); k++ {
					nr = bin.run(r.rc, r.tmp, h.Name, s.Inputs, i)
				}
				mu.Lock()
				defer mu.Unlock()
				r.nativeRun++
				switch {
				case nr.Status == "build":
					r.errs = append(r.errs, "native build: "+nr.Msg)
				case nr.Status == "known":
					r.validated++
				case nr.Status != "ok":
					r.disagree = append(r.disagree, fmt.Sprintf("%s: engine passes, native %s %.800s on %v", h.Name, nr.Status, nr.Msg, s.Inputs))
					if _, ns := h.Opts["sched"]; !ns && (nr.Status == "assert" || nr.Status == "panic") {
						r.violated = true
						r.viols = append(r.viols, violOut{Property: r.rc.prop, Harness: h.Name, Group: h.Group, Kind: nr.Status, Msg: nr.Msg, Inputs: s.Inputs, Labels: s.Labels, Confirmed: true, Native: nr.Status,
							Where: "native run of an explored path", Replay: "native"})
					}
				default:
					_, ns := h.Opts["sched"]
					if !ns && strings.Join(nr.Observed, "|") != strings.Join(s.Observed, "|") {
						r.disagree = append(r.disagree, fmt.Sprintf("%s: engine observed %q, native %q on %v", h.Name, s.Observed, nr.Observed, s.Inputs))
					} else {
						r.validated++
					}
				}
			}()
		}
		wg.Wait()
	}
	if !r.violated {
		for _, l := range h.Reach {
			if res.Reached[l] == 0 {
				r.vacuous = append(r.vacuous, h.Name+": "+l)
			}
		}
		if res.Completed == 0 {
			r.vacuous = append(r.vacuous, h.Name+": no completed path")
		}
	}
	for k, n := range res.Errors {
		r.errs = append(r.errs, fmt.Sprintf("%s: %s (%d paths)", h.Name, k, n))
	}
}

func (r *report) finish() int {
	prop := r.rc.prop
	outDir := filepath.Join(r.rc.verif, "evidence")
	os.MkdirAll(outDir, 0o755)
	for i := range r.viols {
		p := filepath.Join(outDir, fmt.Sprintf("%s.violation%d.json", prop, i))
		b, _ := json.MarshalIndent(struct {
			Entry string `json:"entry"`
			violOut
		}{r.viols[i].Harness, r.viols[i]}, "", " ")
		os.WriteFile(p, b, 0o644)
		r.viols[i].path = p
	}
	r.writeEvidence(outDir)
	for _, u := range r.unconf {
		fmt.Printf("UNCONFIRMED (not reported): %.600s\n", u)
	}
	for _, u := range r.disagree {
		fmt.Printf("DISAGREEMENT: %.1200s\n", u)
	}
	for _, u := range r.errs {
		fmt.Printf("REDUCED-BOUND: %.1200s\n", u)
	}
	for _, id := range sortedKeys(r.knownHit) {
		fmt.Printf("KNOWN-FINDING: property=%s %s %s\n", prop, id, r.knownHit[id])
	}
	if len(r.viols) > 0 {
		for _, v := range r.viols {
			fmt.Printf("violated: %s [%s] %s at %s %v native=%v\n", v.Harness, v.Kind, v.Msg, v.Where, v.Labels, v.Confirmed)
			fmt.Printf("VIOLATION property=%s replay=%s\n", prop, v.path)
		}
		return 1
	}
	if len(r.vacuous) > 0 {
		for _, v := range r.vacuous {
			fmt.Printf("VACUOUS: %s\n", v)
		}
		return 4
	}
	var paths int
	var q int64
	for _, x := range r.results {
		paths += x.Paths
		q += x.Stats.queries
	}
	fmt.Printf("OK property=%s harnesses=%d paths=%d queries=%d validated=%d wall=%.1fs\n", prop, len(r.results), paths, q, r.validated, time.Since(r.start).Seconds())
	return 0
}

func (r *report) writeEvidence(dir string) {
	type hrep struct {
		Harness   string         `json:"harness"`
		Claim     string         `json:"claim"`
		Bounds    []string       `json:"bounds"`
		Paths     int            `json:"paths"`
		Completed int            `json:"paths_completed"`
		Assumed   int            `json:"paths_excluded_by_assumptions"`
		Infeas    int            `json:"paths_infeasible"`
		Pending   int            `json:"paths_not_explored"`
		Bounded   map[string]int `json:"paths_cut_by_a_bound"`
		Partial   map[string]int `json:"reduced_bound_reasons"`
		Errors    map[string]int `json:"paths_not_encodable"`
		Decisions int64          `json:"decisions"`
		Steps     int64          `json:"ssa_instructions_executed"`
		Queries   int64          `json:"solver_queries"`
		Sat       int64          `json:"sat"`
		Unsat     int64          `json:"unsat"`
		Unknown   int64          `json:"unknown"`
		Domains   int64          `json:"questions_decided_by_value_sets"`
		Repairs   int64          `json:"satisfiable_questions_decided_by_model_repair"`
		Models    int64          `json:"branch_sides_decided_by_model"`
		Intervals int64          `json:"branches_decided_by_interval_reasoning"`
		Cross     int64          `json:"queries_repeated_on_a_second_solver"`
		CrossDis  int64          `json:"second_solver_disagreements"`
		Confirmed int64          `json:"value_set_decisions_confirmed_by_solver"`
		SolverS   float64        `json:"solver_seconds"`
		AssertC   int64          `json:"assertions_decided_concretely"`
		AssertI   int64          `json:"assertions_decided_by_interval_reasoning"`
		AssertS   int64          `json:"assertions_decided_by_solver"`
		Sched     int64          `json:"scheduling_steps"`
		MaxGs     int            `json:"max_goroutines"`
		Reached   map[string]int `json:"reachability_witnesses"`
		Exhausted bool           `json:"all_paths_within_bounds_explored"`
		Wall      float64        `json:"wall_s"`
	}
	var hr []hrep
	states, completed := 0, 0
	var trans, queries int64
	var solverS float64
	fset := map[string]int64{}
	var samples []any
	exhaustive := true
	for i, x := range r.results {
		h := r.hs[i]
		ex := x.Pending == 0 && len(x.Errors) == 0 && len(x.Bounded) == 0 && len(x.Partial) == 0
		exhaustive = exhaustive && ex
		hr = append(hr, hrep{Harness: h.Group + "." + h.Name, Claim: strings.TrimSpace(h.Doc), Bounds: h.Bounds, Paths: x.Paths, Completed: x.Completed, Assumed: x.Assumed,
			Infeas: x.Infeas, Pending: x.Pending, Bounded: x.Bounded, Partial: x.Partial, Errors: x.Errors, Decisions: x.Branches, Steps: x.Steps,
			Queries: x.Stats.queries, Sat: x.Stats.sat, Unsat: x.Stats.unsat, Unknown: x.Stats.unknown, Domains: x.Stats.domains, Repairs: x.Stats.repairs, Models: x.Stats.models, Intervals: x.Stats.intervals, Cross: x.Stats.cross, CrossDis: x.Stats.crossDisagree, Confirmed: x.Stats.confirmed,
			SolverS: float64(x.Stats.nanos) / 1e9, AssertC: x.AC, AssertI: x.AI, AssertS: x.AS, Sched: x.Sched, MaxGs: x.MaxGs, Reached: x.Reached, Exhausted: ex, Wall: x.Wall})
		states += x.Paths
		completed += x.Completed
		trans += x.Branches
		queries += x.Stats.queries
		solverS += float64(x.Stats.nanos) / 1e9
		for f, n := range x.Funcs {
			if strings.Contains(f, modPath+"/pkg") || strings.Contains(f, modPath+"/cmd") {
				fset[strings.ReplaceAll(f, modPath+"/", "")] += n
			}
		}
		for j := 0; j < len(x.Samples) && j < 3; j++ {
			samples = append(samples, map[string]any{"harness": h.Name, "path": x.Samples[j*len(x.Samples)/3]})
		}
	}
	if len(samples) == 0 {
		samples = append(samples, "no completed path")
	}
	ev := map[string]any{
		"property": r.rc.prop, "tier": r.rc.tier, "seed": r.rc.seed, "level": "model_checking",
		"coverage": map[string]any{
			"states": states, "transitions": trans, "traces_validated_against_impl": r.validated, "samples": samples,
			"states_meaning":      "symbolic paths explored; each stands for all inputs satisfying its path condition",
			"transitions_meaning": "branch, case and scheduling decisions along those paths",
			"paths_completed":     completed, "exhaustive_within_bounds": exhaustive,
			"solver_queries": queries, "solver_seconds": solverS, "native_runs": r.nativeRun,
			"functions_encoded": fset, "harnesses": hr,
			"disagreements": r.disagree, "unconfirmed_counterexamples": r.unconf, "known_findings_seen": r.knownHit,
			"load_and_encode_s": r.loadT,
		},
		"assumptions": []string{
			"bounds as listed per harness; nothing is claimed outside them",
			"contracts (not code) are used for: fmt, regexp, time formatting/parsing of HTTP dates, strings/strconv primitives on symbolic data, gob and the HTTP/1.1 message codec, sync primitives and the scheduler, logging and metrics (no effect), see DESIGN.md",
			"sequentially consistent interleavings; preemptions at synchronisation operations only, up to the bound of the harness (data races are checked separately)",
		},
		"wall_s":     time.Since(r.start).Seconds(),
		"violations": len(r.viols),
	}
	b, _ := json.MarshalIndent(ev, "", " ")
	os.WriteFile(filepath.Join(dir, r.rc.prop+".json"), b, 0o644)
}

var _ = atomic.AddInt64
