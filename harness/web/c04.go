package web

import (
	"net/http"
	"time"

	vf "github.com/kacheio/kache/zzvf/vf"
)

// store puts one response with the given header into the cache.
func (w *world) store(h http.Header, body string) { w.storeSlow(h, body, 0) }

// storeSlow does so with an origin that takes the given time to answer.
func (w *world) storeSlow(h http.Header, body string, slow time.Duration) {
	w.origin = func(r *http.Request) (*http.Response, error) {
		vf.Advance(slow)
		resp := response(r, 200, body)
		resp.Header = h
		return resp, nil
	}
	w.do(request("GET", "/a"))
	vf.Assert(w.n == 1, "the first request reaches the origin")
}

// reuse sends a second request and reports whether it was answered from the
// store without contacting the origin.
func (w *world) reuse(r *http.Request) bool {
	w.origin = func(r *http.Request) (*http.Response, error) {
		return response(r, 200, "new", "Cache-Control", "max-age=60", "Date", now()), nil
	}
	n := w.n
	_, body := w.do(r)
	if w.n == n {
		vf.Assert(body == "old", "a reused response has the stored body")
		return true
	}
	vf.Assert(w.n == n+1, "the origin is contacted once")
	vf.Assert(body == "new", "the origin's new response is served")
	return false
}

func max64(a, b int64) int64 { return vf.Ite(a > b, a, b) }

// The reuse decision equals the reference decision for whole seconds.
//
// Bounds: every lifetime up to 2^31 s (max-age, s-maxage, both, or Expires
// minus Date from -10^8 to 10^8), initial Age up to 2^31, Date up to 10^8 s
// before or 10^6 s after receipt, an origin that takes up to 10^6 s to answer,
// delay up to 2^31 s; request max-age,
// min-fresh, max-stale each absent, or any value up to 2^31, or max-stale
// without value; no-cache on either side, must-revalidate, proxy-revalidate.
//
//vf:time=120 ttime=400
func C04_Decision() {
	w := newWorld(strictCfg())
	h := http.Header{}
	const big = 1 << 31
	slow := vf.Int("slow", 0, 1000000)
	t0 := time.Now().Unix() + slow
	date := t0 - vf.Int("behind", -1000000, 100000000)
	var life int64
	mode := vf.Choose("mode", 4)
	switch mode {
	case 0:
		life = vf.Int("maxage", 0, big)
		h["Cache-Control"] = []string{"max-age=" + vf.Dec(life)}
	case 1:
		life = vf.Int("smaxage", 0, big)
		h["Cache-Control"] = []string{"s-maxage=" + vf.Dec(life)}
	case 2:
		life = vf.Int("smaxage", 0, big)
		other := vf.Int("maxage", 0, big)
		if vf.Bool("order") {
			h["Cache-Control"] = []string{"s-maxage=" + vf.Dec(life) + ", max-age=" + vf.Dec(other)}
		} else {
			h["Cache-Control"] = []string{"max-age=" + vf.Dec(other) + ", s-maxage=" + vf.Dec(life)}
		}
		h.Set("Expires", vf.HTTPDate(date+5)) // must be ignored
	case 3:
		life = vf.Int("expires", -100000000, 100000000)
		h.Set("Expires", vf.HTTPDate(date+life))
	}
	h.Set("Date", vf.HTTPDate(date))
	age0 := int64(0)
	if vf.Bool("hasage") {
		age0 = vf.Int("age0", 0, big)
		h.Set("Age", vf.Dec(age0))
	}
	mustRev, noCache := false, false
	switch vf.Choose("flag", 4) {
	case 1:
		h["Cache-Control"] = append(h["Cache-Control"], "must-revalidate")
		mustRev = true
	case 2:
		h["Cache-Control"] = append(h["Cache-Control"], "proxy-revalidate")
		mustRev = true
	case 3:
		h["Cache-Control"] = append(h["Cache-Control"], "no-cache")
		noCache = true
	}
	w.storeSlow(h, "old", time.Duration(slow)*time.Second)

	d := vf.Int("delay", 0, big)
	vf.Advance(time.Duration(d) * time.Second)

	r := request("GET", "/a")
	reqMax, minFresh, maxStale := int64(-1), int64(-1), int64(-1)
	var cc []string
	switch vf.Choose("req", 6) {
	case 1:
		reqMax = vf.Int("reqmax", 0, big)
		cc = append(cc, "max-age="+vf.Dec(reqMax))
	case 2:
		minFresh = vf.Int("minfresh", 0, big)
		cc = append(cc, "min-fresh="+vf.Dec(minFresh))
	case 3:
		if vf.Bool("pragma") {
			r.Header["Pragma"] = []string{"no-cache"}
		} else {
			noCache = true
			cc = append(cc, "No-Cache")
		}
	case 4:
		reqMax = vf.Int("reqmax", 0, big)
		minFresh = vf.Int("minfresh", 0, big)
		cc = append(cc, "max-age="+vf.Dec(reqMax), "min-fresh="+vf.Dec(minFresh))
	}
	switch vf.Choose("stale", 3) {
	case 1:
		maxStale = vf.Int("maxstale", 0, big)
		cc = append(cc, "max-stale="+vf.Dec(maxStale))
	case 2:
		maxStale = 1 << 60
		cc = append(cc, "max-stale")
	}
	if len(cc) == 0 && r.Header["Pragma"] != nil {
		noCache = true // Pragma only counts without Cache-Control.
	}
	if len(cc) > 0 {
		r.Header["Cache-Control"] = cc
	}

	age := max64(max64(0, t0-date), age0) + d
	fresh := age <= life
	allowStale := vf.And(maxStale > age-life, !mustRev)
	want := vf.And(!noCache,
		vf.Or(reqMax < 0, age <= reqMax),
		vf.Or(vf.And(fresh, minFresh <= life-age), vf.And(vf.Not(fresh), allowStale)))
	got := w.reuse(r)
	vf.Assert(got == want, "reused exactly if the reference decision says so")
	if got {
		vf.Reach("reused")
	} else {
		vf.Reach("validated")
	}
}

// With sub-second clocks a response is never reused once its true age exceeds
// its lifetime by a full second.
//
// Bounds: lifetime up to 10^6 s, arbitrary nanosecond offset of the receipt,
// arbitrary nanosecond delay up to 2*10^6 s.
//
//vf:time=60
func C04_SubSecond() {
	vf.Advance(time.Duration(vf.Int("offset", 0, 999999999)))
	w := newWorld(strictCfg())
	life := vf.Int("maxage", 0, 1000000)
	w.store(http.Header{"Cache-Control": {"max-age=" + vf.Dec(life)}, "Date": {now()}}, "old")
	ns := vf.Int("ns", 0, 2000000*1000000000)
	vf.Advance(time.Duration(ns))
	if w.reuse(request("GET", "/a")) {
		vf.Reach("reused")
		vf.Assert(ns < (life+1)*1000000000, "never reused past its lifetime")
	} else {
		vf.Reach("validated")
		vf.Assert(ns > (life-1)*1000000000, "not validated well within its lifetime")
	}
}

// Missing or invalid dates never make a stored response live forever, and
// numbers too large to represent are treated as very large.
//
// Bounds: Date and Expires each absent, empty, "0", garbage, one of the three
// HTTP date formats, or far in the past or the future; Age absent, or any
// number up to 10^15, or garbage; max-stale absent or up to 10^6; delay up to
// 10^9 s.
//
//vf:time=60
func C04_Invalid() {
	w := newWorld(strictCfg())
	h := http.Header{}
	t0 := time.Now().Unix()
	dates := [...]string{"", "0", "Mon, 99 Jan 2000 00:00:00 GMT", "-1", "Sat, 01 Jan 1600 00:00:00 GMT",
		"Mon, 01 Jan 0001 00:00:01 GMT", "Sat, 01 Jan 2000 00:00:00 GMT", "Saturday, 01-Jan-00 00:00:00 GMT", "Sat Jan  1 00:00:00 2000"}
	const nInvalid, nOld = 4, 2
	di := vf.Choose("date", len(dates))
	dateValid := di >= nInvalid
	if dates[di] != "" {
		h.Set("Date", dates[di])
	}
	date := t0
	if dateValid && di < nInvalid+nOld {
		date = t0 - 3000000000
	}
	explicit := vf.Bool("explicit")
	life := int64(-1) // -1: already expired
	if explicit {
		life = vf.Int("maxage", 0, 1000000)
		h.Set("Cache-Control", "max-age="+vf.Dec(life))
	} else {
		vf.Assume(di > 0) // otherwise not stored at all
		ei := vf.Choose("expires", len(dates))
		vf.Assume(ei > 0)
		h.Set("Expires", dates[ei])
		if dateValid && ei >= nInvalid {
			life = 0 // at the origin's date or before (or centuries after an ancient date)
			// A lifetime of more than 292 years is out of scope.
			vf.Assume(!(di < nInvalid+nOld && ei != di))
		}
	}
	age0 := int64(0)
	switch vf.Choose("age", 4) {
	case 1:
		age0 = vf.Int("age0", 0, 9000000000)
		h.Set("Age", vf.Dec(age0))
	case 2:
		age0 = vf.Int("age0", 10000000000, 1000000000000000)
		h.Set("Age", vf.Dec(age0))
	case 3:
		h.Set("Age", "x1")
	}
	w.store(h, "old")
	d := vf.Int("delay", 1, 1000000000)
	vf.Advance(time.Duration(d) * time.Second)
	r := request("GET", "/a")
	stale := int64(0)
	if vf.Bool("maxstale") {
		stale = vf.Int("stale", 0, 1000000)
		r.Header.Set("Cache-Control", "max-stale="+vf.Dec(stale))
	}
	age := max64(t0-date, age0) + d
	if w.reuse(r) {
		vf.Reach("reused")
		vf.Assert(age <= max64(life, 0)+stale, "never reused once its age exceeds its lifetime and the accepted staleness")
	} else {
		vf.Reach("validated")
	}
}
