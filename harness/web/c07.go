package web

import (
	"net/http"
	"time"

	"github.com/kacheio/kache/pkg/cache"
	vf "github.com/kacheio/kache/zzvf/vf"
)

// The configured Cache-Control header is added to responses without one and
// replaces an existing one only if forced; the resulting header decides about
// storing and reuse and is what the client gets.
//
// Bounds: configured max-age up to 2^31 or no-store or no-cache, forced or
// not; origin header absent, empty, one or two lines, with symbolic max-age or
// no-store; reuse after any delay up to 2^31 s; fetched or validated response.
//
//vf:time=60
func C07_Header() {
	force := vf.Bool("force")
	var conf string
	life := int64(-1)
	confNoCache, confNoStore := false, false
	switch vf.Choose("conf", 3) {
	case 0:
		life = vf.Int("confage", 0, 1<<31)
		conf = "max-age=" + vf.Dec(life)
	case 1:
		conf, confNoStore = "no-store", true
	case 2:
		conf, confNoCache = "no-cache", true
	}
	cfg := strictCfg()
	cfg.DefaultCacheControl, cfg.ForceCacheControl = conf, force
	w := newWorld(cfg)

	var orig []string
	origLife := int64(-1)
	origNoStore, origNoCache := false, false
	switch vf.Choose("orig", 5) {
	case 1:
		orig = []string{""}
	case 2:
		origLife = vf.Int("origage", 0, 1<<31)
		orig = []string{"max-age=" + vf.Dec(origLife)}
	case 3:
		orig, origNoStore = []string{"max-age=5", "no-store"}, true
	case 4:
		orig, origNoCache = []string{"no-cache"}, true
	}
	want := []string{conf}
	if orig != nil && !force {
		want, life, confNoStore, confNoCache = orig, origLife, origNoStore, origNoCache
	}
	w.origin = func(r *http.Request) (*http.Response, error) {
		resp := response(r, 200, "old", "Date", now(), "Etag", "\"e\"")
		if orig != nil {
			resp.Header["Cache-Control"] = orig
		}
		return resp, nil
	}
	check := func(resp *http.Response) {
		got := resp.Header["Cache-Control"]
		vf.Assert(len(got) == len(want), "the Cache-Control header is as configured")
		for i := range want {
			vf.Assert(got[i] == want[i], "the Cache-Control value is as configured")
		}
	}
	resp, _ := w.do(request("GET", "/a"))
	check(resp)
	if confNoStore || !confNoCache && life < 0 {
		vf.Reach("not stored")
		vf.Assert(w.pd.Size() == 0, "the resulting header forbids storing")
		return
	}
	vf.Assert(w.pd.Size() == 1, "the resulting header allows storing")
	d := vf.Int("delay", 0, 1<<31)
	vf.Advance(time.Duration(d) * time.Second)
	// A validating response carries no Cache-Control itself.
	w.origin = func(r *http.Request) (*http.Response, error) {
		return response(r, 304, "", "Date", now(), "Etag", "\"e\""), nil
	}
	resp, body := w.do(request("GET", "/a"))
	vf.Assert(body == "old", "the stored response is served")
	check(resp)
	vf.Assert((w.n == 1) == vf.And(!confNoCache, d <= life), "reuse follows the resulting header")
	if w.n == 1 {
		vf.Reach("reused")
	} else {
		vf.Reach("validated")
	}
}

// Without a configured value existing headers stay untouched, and requests
// that bypass the cache get the origin's header in any case.
//
// Bounds: no, one or two header lines with symbolic max-age; any status
// 200-599; force set or not; strict and cache-all mode.
//
//vf:time=30
func C07_Untouched() {
	cfg := strictCfg()
	bypass := vf.Bool("bypass")
	cfg.Strict, cfg.ForceCacheControl = vf.Bool("strict"), vf.Bool("force")
	if bypass {
		cfg.DefaultCacheControl = "max-age=7"
	}
	w := newWorld(cfg)
	var lines []string
	switch vf.Choose("lines", 3) {
	case 1:
		lines = []string{"max-age=" + vf.Dec(vf.Int("age", 0, 1<<31))}
	case 2:
		lines = []string{"max-age=" + vf.Dec(vf.Int("age", 0, 1<<31)), "public"}
	}
	code := int(vf.Int("code", 200, 599))
	w.origin = func(r *http.Request) (*http.Response, error) {
		resp := response(r, code, "x")
		if lines != nil {
			resp.Header["Cache-Control"] = lines
		}
		return resp, nil
	}
	r := request("GET", "/a")
	if bypass {
		r.Header["Authorization"] = []string{"a"}
	}
	resp, _ := w.do(r)
	got, ok := resp.Header["Cache-Control"]
	vf.Assert(ok == (lines != nil) && len(got) == len(lines), "no header line is added or removed")
	for i := range lines {
		vf.Assert(got[i] == lines[i], "every line is untouched")
	}
	vf.Reach("passed")
}

// In cache-all mode every response to a GET request is stored and reused until
// its TTL passes, whatever the Cache-Control headers of both sides say.
//
// Bounds: any status 200-599 but 204 and 304 without directives, or status 500 with response directive no-store,
// private, no-cache, max-age=0 or none, request directive no-store, no-cache,
// max-age=0 or none; TTL 1..10^6 s, any delay up to 2*10^6 s; GET or HEAD.
//
//vf:time=60
func C07_CacheAll() {
	ttl := vf.Int("ttl", 1, 1000000)
	w := newWorld(&cache.HttpCacheConfig{Strict: false, DefaultTTL: vf.Dec(ttl) + "s"})
	code := 500
	anyCode := vf.Bool("anycode")
	if anyCode {
		code = int(vf.Int("code", 200, 599))
		vf.Assume(vf.And(code != 304, code != 204))
	}
	choose := func(name string, n int) int {
		if anyCode {
			return 0
		}
		return vf.Choose(name, n)
	}
	w.origin = func(r *http.Request) (*http.Response, error) {
		resp := response(r, code, "old")
		switch choose("res", 5) {
		case 1:
			resp.Header["Cache-Control"] = []string{"no-store"}
		case 2:
			resp.Header["Cache-Control"] = []string{"private"}
		case 3:
			resp.Header["Cache-Control"] = []string{"no-cache"}
		case 4:
			resp.Header["Cache-Control"] = []string{"max-age=0"}
		}
		return resp, nil
	}
	mk := func(name, method string) *http.Request {
		r := request(method, "/a")
		switch choose(name, 4) {
		case 1:
			r.Header["Cache-Control"] = []string{"no-store"}
		case 2:
			r.Header["Cache-Control"] = []string{"no-cache"}
		case 3:
			r.Header["Cache-Control"] = []string{"max-age=0"}
		}
		return r
	}
	resp, _ := w.do(mk("req", "GET"))
	vf.Assert(resp.StatusCode == code && w.pd.Size() == 1, "every response is stored")
	d := vf.Int("delay", 0, 2000000)
	vf.Advance(time.Duration(d) * time.Second)
	method := "GET"
	if vf.Bool("head") {
		method = "HEAD"
	}
	w.origin = func(r *http.Request) (*http.Response, error) { return response(r, 500, "new"), nil }
	resp, body := w.do(mk("req2", method))
	if w.n == 1 {
		vf.Reach("reused")
		vf.Assert(d <= ttl, "not reused after its TTL")
		vf.Assert(resp.StatusCode == code && (method == "HEAD" || body == "old"), "the stored response is served")
	} else {
		vf.Reach("expired")
		vf.Assert(d >= ttl, "not fetched again before its TTL")
	}
}
