package web

import (
	"net/http"
	"time"

	"github.com/kacheio/kache/pkg/cache"
	vf "github.com/kacheio/kache/zzvf/vf"
)

// Every response answered from the store carries exactly one Age header field
// with its current age, in both cache modes.
//
// Bounds: initial Age up to 2^31 (absent, one line, or a further line), Date
// up to 10^8 s before or 10^6 s after receipt or missing, delay up to 2^31 s;
// strict mode and cache-all mode; a second hit after a second delay.
//
//vf:time=60
func C05_Hit() {
	cfg := strictCfg()
	cfg.Strict = vf.Bool("strict")
	w := newWorld(cfg)
	t0 := time.Now().Unix()
	h := http.Header{"Cache-Control": {"max-age=9000000000"}}
	date := t0
	if vf.Bool("hasdate") {
		date = t0 - vf.Int("behind", -1000000, 100000000)
		h.Set("Date", vf.HTTPDate(date))
	}
	age0 := int64(0)
	switch vf.Choose("hasage", 3) {
	case 1:
		age0 = vf.Int("age0", 0, 1<<31)
		h.Set("Age", vf.Dec(age0))
	case 2:
		age0 = vf.Int("age0", 0, 1<<31)
		h["Age"] = []string{vf.Dec(age0), "7"}
	}
	w.store(h, "old")
	initial := max64(max64(0, t0-date), age0)

	d := vf.Int("delay", 0, 1<<31)
	vf.Advance(time.Duration(d) * time.Second)
	for i := 0; i < 2; i++ {
		method := "GET"
		if vf.Bool("head") {
			method = "HEAD"
		}
		n := w.n
		resp, _ := w.do(request(method, "/a"))
		vf.Assert(w.n == n, "answered from the store")
		vf.Reach("hit")
		vf.Assert(len(resp.Header["Age"]) == 1, "exactly one Age field")
		vf.Assert(resp.Header["Age"][0] == vf.Dec(initial+d), "Age is the current age")
		if i == 0 {
			d2 := vf.Int("delay2", 0, 1<<31)
			d += d2
			vf.Advance(time.Duration(d2) * time.Second)
		}
	}
}

// A response that comes from the origin keeps the origin's Age header and gets
// none of its own; a successfully validated response is fresh and carries no
// Age but the one of the validating response.
//
// Bounds: origin Age absent or any value up to 2^31, on the full and on the
// validating response; delay up to 10^6 s; plain miss, bypassing request, or
// validation.
//
//vf:time=60
func C05_Fetched() {
	w := newWorld(strictCfg())
	h := http.Header{"Cache-Control": {"max-age=10"}, "Etag": {"\"e\""}, "Date": {now()}}
	hasAge := vf.Bool("hasage")
	age0 := ""
	if hasAge {
		age0 = vf.Dec(vf.Int("age0", 0, 1<<31))
		h.Set("Age", age0)
	}
	w.origin = func(r *http.Request) (*http.Response, error) {
		resp := response(r, 200, "x")
		resp.Header = h.Clone()
		return resp, nil
	}
	r := request("GET", "/a")
	if vf.Bool("bypass") {
		r.Header["Authorization"] = []string{"x"}
	}
	resp, _ := w.do(r)
	vf.Assert(w.n == 1, "fetched")
	got, ok := resp.Header["Age"]
	vf.Assert(ok == hasAge, "the origin's Age header is kept, none is added")
	if hasAge {
		vf.Assert(len(got) == 1 && got[0] == age0, "the origin's Age value is kept")
	}
	vf.Reach("fetched")
	if w.pd.Size() == 0 {
		return
	}

	// Validation.
	vf.Advance(time.Duration(vf.Int("delay", 11, 1000000)) * time.Second)
	vh := http.Header{"Etag": {"\"e\""}, "Date": {now()}}
	hasAge = vf.Bool("vhasage")
	if hasAge {
		age0 = vf.Dec(vf.Int("vage", 0, 1<<31))
		vh.Set("Age", age0)
	}
	w.origin = func(r *http.Request) (*http.Response, error) {
		resp := response(r, 304, "")
		resp.Header = vh.Clone()
		return resp, nil
	}
	resp, body := w.do(request("GET", "/a"))
	vf.Assert(w.n == 2 && body == "x", "validated")
	got, ok = resp.Header["Age"]
	vf.Assert(ok == hasAge, "a validated response has no Age of its own")
	if hasAge {
		vf.Assert(len(got) == 1 && got[0] == age0, "the Age of the validating response is used")
	}
	vf.Reach("validated")
}

// The age never decreases with time, is never negative, and saturates instead
// of wrapping around.
//
// Bounds: any receipt time and two later times within +-2*10^9 s of 2000, any
// Date in that range or in the far past, any Age up to 10^13 s.
//
//vf:time=60
func C05_Monotone() {
	base := time.Date(2000, 1, 1, 0, 0, 0, 0, time.UTC)
	t0 := base.Add(time.Duration(vf.Int("t0", 0, 2000000000)) * time.Second)
	h := http.Header{}
	switch vf.Choose("date", 3) {
	case 1:
		h.Set("Date", vf.HTTPDate(base.Unix()+vf.Int("date", -900000000, 2000000000)))
	case 2:
		h.Set("Date", "Sat, 01 Jan 1600 00:00:00 GMT")
	}
	if vf.Bool("age") {
		h.Set("Age", vf.Dec(vf.Int("age0", 0, 10000000000000)))
	}
	d1 := vf.Int("d1", 0, 2000000000)
	d2 := vf.Int("d2", 0, 2000000000)
	a0 := cache.CalculateAge(&h, t0, t0)
	a1 := cache.CalculateAge(&h, t0, t0.Add(time.Duration(d1)*time.Second))
	a2 := cache.CalculateAge(&h, t0, t0.Add(time.Duration(d1+d2)*time.Second))
	vf.Assert(a0 >= 0, "never negative")
	vf.Assert(a1 >= a0 && a2 >= a1, "never decreasing")
	vf.Reach("age")
}
