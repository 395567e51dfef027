// Package vf is the interface between a verification harness and the engine.
// Under the symbolic engine every function here is intercepted; compiled
// natively the same functions read the solver's assignment from a replay file,
// so that a counterexample (or a sampled passing path) runs on the real build.
package vf

import (
	"encoding/json"
	"fmt"
	"net/http"
	"os"
	"path/filepath"
	"runtime"
	"strconv"
	"testing/synctest"
	"time"
)

type input struct {
	Name string `json:"name"`
	Kind string `json:"kind"`
	V    int64  `json:"v"`
}

type replay struct {
	Entry  string  `json:"entry"`
	Inputs []input `json:"inputs"`
}

type result struct {
	Status   string   `json:"status"`
	Msg      string   `json:"msg"`
	Observed []string `json:"observed"`
}

var (
	cur  replay
	pos  int
	out  result
	dir  string
	outF *os.File
)

func finish(status, msg string) {
	out.Status, out.Msg = status, msg
	b, _ := json.Marshal(out)
	fmt.Fprintf(outF, "\nVFRESULT %s\n", b)
	if dir != "" {
		os.RemoveAll(dir)
	}
	os.Exit(0)
}

// RunNative executes one recorded case.
func RunNative(entries map[string]func()) {
	b, err := os.ReadFile(os.Getenv("VF_REPLAY"))
	if err == nil {
		err = json.Unmarshal(b, &cur)
	}
	outF = os.Stdout
	if err != nil {
		finish("error", err.Error())
	}
	f := entries[cur.Entry]
	if f == nil {
		finish("error", "no entry "+cur.Entry)
	}
	defer func() {
		if r := recover(); r != nil {
			buf := make([]byte, 4096)
			buf = buf[:runtime.Stack(buf, false)]
			fmt.Fprintf(outF, "%s\n", buf)
			finish("panic", fmt.Sprint(r))
		}
	}()
	f()
	finish("ok", "")
}

func next(name, kind string) int64 {
	if pos >= len(cur.Inputs) {
		finish("mismatch", "input "+name+" is not in the replay file")
	}
	in := cur.Inputs[pos]
	pos++
	n := in.Name
	for i := 0; i < len(n); i++ {
		if n[i] == '#' {
			n = n[:i]
		}
	}
	if n != name || in.Kind != kind {
		finish("mismatch", fmt.Sprintf("input %s/%s requested, replay file has %s/%s", name, kind, in.Name, in.Kind))
	}
	return in.V
}

// Int is an arbitrary integer in [lo, hi].
func Int(name string, lo, hi int64) int64 {
	return next(name, "int")
}

// Byte is an arbitrary byte in [lo, hi].
func Byte(name string, lo, hi byte) byte { return byte(next(name, "int")) }

// Bool is an arbitrary boolean.
func Bool(name string) bool { return next(name, "bool") != 0 }

// Choose is an arbitrary value in [0, n), explored by case split.
func Choose(name string, n int) int { return int(next(name, "choice")) }

// String is an arbitrary string of exactly n bytes over the alphabet
// (single characters and ranges a-z).
func String(name string, n int, alphabet string) string {
	b := make([]byte, n)
	for i := range b {
		b[i] = byte(next(name+"["+strconv.Itoa(i)+"]", "int"))
	}
	return string(b)
}

// Assume restricts the inputs.
func Assume(c bool) {
	if !c {
		finish("assume", "")
	}
}

// Assert is the property.
func Assert(c bool, msg string) {
	if !c {
		finish("assert", msg)
	}
}

// Known is an assertion with a recorded exception: outside of cond it is an
// ordinary assertion; a failure under cond is the known finding id.
func Known(c bool, id string, cond bool, msg string) {
	if c {
		return
	}
	if cond {
		finish("known", id+": "+msg)
	}
	finish("assert", msg)
}

// Reach is a reachability witness: the check is vacuous unless it is hit.
func Reach(label string) {}

// Thorough reports whether the thorough bounds are in force.
func Thorough() bool { return os.Getenv("VF_THOROUGH") == "1" }

// Symbolic reports whether the symbolic engine runs the harness.
func Symbolic() bool { return false }

// Advance lets d of (virtual) time pass.
func Advance(d time.Duration) { time.Sleep(d) }

// Dec is the decimal representation of v.
func Dec(v int64) string { return strconv.FormatInt(v, 10) }

// HTTPDate renders the instant sec (seconds since the Unix epoch) as an HTTP date.
func HTTPDate(sec int64) string { return time.Unix(sec, 0).UTC().Format(http.TimeFormat) }

// Explore turns on exploration of schedules with at most k preemptions.
func Explore(k int) {}

// StopExplore turns it off again.
func StopExplore() {}

// DetectRaces turns on happens-before race detection.
func DetectRaces() {}

// Yield lets other goroutines run.
func Yield() { runtime.Gosched() }

// Wait lets all other goroutines run until they are blocked.
func Wait() { synctest.Wait() }

// Observe records a value that the engine and the native run must agree on.
func Observe(tag, v string) { out.Observed = append(out.Observed, tag+"="+v) }

// ObserveInt records an integer.
func ObserveInt(tag string, v int64) { Observe(tag, strconv.FormatInt(v, 10)) }

// ObserveBool records a boolean.
func ObserveBool(tag string, v bool) { Observe(tag, strconv.FormatBool(v)) }

// SetFile makes a file with the given content available and returns its path.
func SetFile(name, content string) string {
	if dir == "" {
		d, err := os.MkdirTemp("", "vf")
		if err != nil {
			finish("error", err.Error())
		}
		dir = d
	}
	p := filepath.Join(dir, name)
	err := os.WriteFile(p+".new", []byte(content), 0o600)
	if err == nil {
		err = os.Chtimes(p+".new", time.Now(), time.Now()) // a file system may have coarse times.
	}
	if err == nil {
		err = os.Rename(p+".new", p)
	}
	if err != nil {
		finish("error", err.Error())
	}
	return p
}

// RemoveFile removes a file made with SetFile.
func RemoveFile(path string) {
	if err := os.Remove(path); err != nil {
		finish("error", err.Error())
	}
}

// RealCodec makes the engine execute the real HTTP wire codec and gob instead
// of their contracts.
func RealCodec() {}

// And is the conjunction of all arguments (no short circuit, no fork).
func And(cs ...bool) bool {
	for _, c := range cs {
		if !c {
			return false
		}
	}
	return true
}

// Or is the disjunction of all arguments.
func Or(cs ...bool) bool {
	for _, c := range cs {
		if c {
			return true
		}
	}
	return false
}

// Not is the negation.
func Not(c bool) bool { return !c }

// Implies is a => b.
func Implies(a, b bool) bool { return Or(Not(a), b) }

// Ite selects without forking.
func Ite(c bool, a, b int64) int64 {
	if c {
		return a
	}
	return b
}

// StrEq compares strings without forking where possible.
func StrEq(a, b string) bool { return a == b }
