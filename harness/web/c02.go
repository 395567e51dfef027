package web

import (
	"errors"
	"net/http"

	"github.com/kacheio/kache/pkg/cache"
	vf "github.com/kacheio/kache/zzvf/vf"
)

// Only GET and HEAD requests without credentials, range or conditions take
// part in caching: every other request reaches the origin as it is, gets the
// origin's response, and neither adds nor replaces a stored response. It removes
// the one of its URL exactly if it succeeds and may have changed the resource.
//
// Bounds: one stored response; one request with a symbolic method of 3-7
// letters, any subset of nine header fields (seven gating ones) with symbolic
// one-byte, empty or two values; origin status and cacheability arbitrary.
//
//vf:time=100
func C02_Gate() {
	w := newWorld(strictCfg())
	w.origin = func(r *http.Request) (*http.Response, error) {
		return response(r, 200, "stored", "Cache-Control", "max-age=1000", "Date", now(), "Etag", "\"e\""), nil
	}
	prefilled := vf.Bool("prefilled")
	if prefilled {
		w.do(request("GET", "/a"))
	}
	n0 := w.n

	var method string
	switch vf.Choose("methodlen", 5) {
	case 0:
		method = vf.String("m", 3, "A-Z")
	case 1:
		method = vf.String("m", 4, "A-Z")
	case 2:
		method = vf.String("m", 5, "A-Z")
	case 3:
		method = "OPTIONS"
	default:
		method = "CONNECT"
	}
	r := request(method, "/a")
	gated := false
	vals := vf.Choose("values", 3)
	for _, h := range [...]string{"Authorization", "Range", "If-Range", "If-Match", "If-None-Match", "If-Modified-Since", "If-Unmodified-Since"} {
		if vf.Bool("has " + h) {
			switch vals {
			case 0:
				r.Header[h] = []string{vf.String(h, 1, " -~")}
			case 1:
				r.Header[h] = []string{""}
			case 2:
				r.Header[h] = []string{"", vf.String(h, 1, " -~")}
			}
			gated = true
		}
	}
	if vf.Bool("has accept") {
		r.Header["Accept"] = []string{"*/*"}
	}
	hasCookie := vf.Bool("has cookie")
	if hasCookie {
		r.Header["Cookie"] = []string{"a=b"}
	}
	code := int(vf.Int("code", 200, 599))
	vf.Assume(code != 304)
	cc := "max-age=500"
	if vf.Bool("nostore") {
		cc = "no-store"
	}
	w.origin = func(r *http.Request) (*http.Response, error) {
		return response(r, code, "other", "Cache-Control", cc, "Date", now()), nil
	}
	resp, body := w.do(r)
	cacheable := vf.And(vf.Not(gated), vf.Or(vf.StrEq(method, "GET"), vf.StrEq(method, "HEAD")))
	if cacheable {
		vf.Reach("cacheable")
		vf.Assert(vf.Implies(prefilled, w.n == n0), "a fresh stored response answers a plain GET or HEAD")
		return
	}
	vf.Reach("bypassed")
	vf.Assert(w.n == n0+1, "the request reaches the origin")
	vf.Assert(resp.StatusCode == code, "the origin's status is passed on")
	if method != "HEAD" {
		vf.Assert(body == "other", "the origin's body is passed on")
	}
	vf.Assert(w.last.Method == method, "the method is passed on")
	for _, h := range [...]string{"Authorization", "Range", "If-Range", "If-Match", "If-None-Match", "If-Modified-Since", "If-Unmodified-Since"} {
		a, b := r.Header[h], w.last.Header[h]
		vf.Assert(len(a) == len(b), "the gating headers are passed on")
		for i := range a {
			vf.Assert(a[i] == b[i], "the gating header values are passed on")
		}
	}

	// The store is as before, but for a changed resource.
	unsafe := vf.And(code < 400, vf.Not(vf.Or(vf.Or(vf.StrEq(method, "GET"), vf.StrEq(method, "HEAD")), vf.Or(vf.StrEq(method, "OPTIONS"), vf.StrEq(method, "TRACE")))))
	w.origin = func(r *http.Request) (*http.Response, error) {
		return response(r, 200, "third", "Cache-Control", "max-age=500", "Date", now()), nil
	}
	n1 := w.n
	_, body = w.do(request("GET", "/a"))
	if prefilled && unsafe {
		vf.Assert(w.n == n1+1 && body == "third", "an outdated response is removed")
	} else if prefilled {
		vf.Assert(w.n == n1 && body == "stored", "the stored response is untouched")
	} else {
		vf.Assert(w.n == n1+1 && body == "third", "nothing was stored")
	}
}

// A request that may have changed the resource removes exactly its stored
// response, excluded from caching or not, in either mode.
//
// Bounds: two stored responses, one of them by a URL with a symbolic query;
// POST, PUT, PATCH, DELETE or a method of three letters for a URL with a symbolic
// query, with or without a body and a header excluded from caching; answered
// with any status, or a transport error.
//
//vf:time=60
func C02_Unsafe() {
	cc := strictCfg()
	cc.Strict = vf.Bool("strict")
	if vf.Bool("excluded") {
		cc.Exclude = &cache.Exclude{Header: map[string]string{"x_e": "1"}}
	}
	w := newWorld(cc)
	w.origin = func(r *http.Request) (*http.Response, error) {
		return response(r, 200, "stored", "Cache-Control", "max-age=1000", "Date", now()), nil
	}
	q := vf.String("q", 1, "a-c")
	w.do(request("GET", "/a"))
	w.do(withQuery(request("GET", "/a"), "x="+q))
	method := vf.String("any", 3, "A-Z")
	if i := vf.Choose("method", 5); i < 4 {
		method = [...]string{"POST", "PUT", "PATCH", "DELETE"}[i]
	}
	vf.Assume(method != "GET")
	r := request(method, "/a", "X-E", "1")
	var q2 string
	if vf.Bool("query") {
		q2 = vf.String("q2", 1, "a-c")
		r = withQuery(r, "x="+q2)
	}
	code := int(vf.Int("code", 200, 599))
	fails := vf.Bool("fails")
	w.origin = func(r *http.Request) (*http.Response, error) {
		if fails {
			return nil, errors.New("connection reset")
		}
		return response(r, code, "other"), nil
	}
	w.tr.RoundTrip(r)
	w.origin = func(r *http.Request) (*http.Response, error) {
		return response(r, 200, "new", "Cache-Control", "max-age=1000", "Date", now()), nil
	}
	removed := !fails && code < 400
	for _, p := range [...]string{"", q} {
		get := request("GET", "/a")
		if p != "" {
			get = withQuery(get, "x="+p)
		}
		_, body := w.do(get)
		if removed && p == q2 {
			vf.Assert(body == "new", "the response for the changed URL is removed")
			vf.Reach("removed")
		} else {
			vf.Assert(body == "stored", "other responses stay")
			vf.Reach("stayed")
		}
	}
}

func withQuery(r *http.Request, q string) *http.Request {
	r.URL.RawQuery = q
	return r
}
