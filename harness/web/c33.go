package web

import (
	"net/http"
	"strings"

	vf "github.com/kacheio/kache/zzvf/vf"
)

// varyValue is one way a request may have a header.
func varyValue(r *http.Request, t, name string) {
	switch vf.Choose(t, 4) {
	case 1:
		r.Header[name] = []string{vf.String(t+"value", 1, "a-c,")}
	case 2:
		r.Header[name] = []string{""}
	case 3:
		r.Header[name] = []string{vf.String(t+"first", 1, "a-c"), "b"}
	}
}

// anyVary is one way to write a Vary header; it returns its lines and tells
// whether it names X-A, X-B or *.
func anyVary() (lines []string, a, b, any bool) {
	n := vf.String("name", 1, "aAbBcC")
	first := vf.Or(vf.StrEq(n, "a"), vf.StrEq(n, "A"))
	second := vf.Or(vf.StrEq(n, "b"), vf.StrEq(n, "B"))
	switch vf.Choose("vary", 7) {
	case 0:
		return nil, false, false, false
	case 1:
		return []string{"X-" + n}, first, second, false
	case 2:
		return []string{"x-b, x-" + n}, first, true, false
	case 3:
		return []string{"X-C", "X-" + n + " ,, "}, first, second, false
	case 4:
		return []string{"*"}, false, false, true
	case 5:
		return []string{"X-" + n + ",*"}, first, second, true
	}
	return []string{""}, false, false, false
}

func agree(r1, r2 *http.Request, name string) bool {
	v1, v2 := r1.Header[name], r2.Header[name]
	return vf.And(len(v1) == 0 == (len(v2) == 0), vf.StrEq(strings.Join(v1, ", "), strings.Join(v2, ", ")))
}

// A stored response is only used for requests that agree with the one it
// answered in all headers named by its Vary header, and with * for none.
//
// Bounds: seven layouts of Vary with a symbolic letter; two headers absent,
// empty, on one line with a symbolic value or on two lines in each of two
// requests; strict or not; then the first or second request again.
//
//vf:time=60
func C33_Stored() {
	cc := strictCfg()
	cc.Strict = vf.Bool("strict")
	w := newWorld(cc)
	lines, onA, onB, any := anyVary()
	w.origin = func(r *http.Request) (*http.Response, error) {
		p := response(r, 200, string(rune('0'+w.n)), "Cache-Control", "max-age=1000", "Date", now())
		if lines != nil {
			p.Header["Vary"] = lines
		}
		return p, nil
	}
	r1, r2 := request("GET", "/a"), request("GET", "/a")
	varyValue(r1, "a1", "X-A")
	varyValue(r2, "a2", "X-A")
	if vf.Bool("b") {
		r1.Header["X-B"] = []string{vf.String("b1", 1, "ab")}
		varyValue(r2, "b2", "X-B")
	}
	if vf.Bool("c") {
		r2.Header["X-Other"] = []string{"z"}
	}
	_, body := w.do(r1)
	vf.Assert(body == "1", "the first request is answered by the origin")
	same := vf.And(vf.Not(any), vf.Implies(onA, agree(r1, r2, "X-A")), vf.Implies(onB, agree(r1, r2, "X-B")))
	_, body = w.do(r2)
	again := r1.Clone(r1.Context())
	if same {
		vf.Reach("same")
		vf.Assert(body == "1" && w.n == 1, "a matching request is answered from the store")
		_, body = w.do(again)
		vf.Assert(body == "1" && w.n == 1, "the first request is as well")
	} else {
		vf.Reach("different")
		vf.Assert(body == "2" && w.n == 2, "another request is answered by the origin")
		if vf.Bool("second") {
			_, body = w.do(r2.Clone(r2.Context()))
			vf.Assert(vf.Or(any, body == "2" && w.n == 2), "its response is stored")
			vf.Assert(vf.Or(vf.Not(any), body == "3"), "unless it matches no request")
			return
		}
		_, body = w.do(again)
		vf.Assert(body != "2", "no request gets the response of another one")
	}
}

// Concurrent requests for one URL only share a response if they agree in the
// headers named by its Vary header.
//
// Bounds: two overlapping requests, otherwise as C33_Stored.
//
//vf:time=60
func C33_Shared() {
	lines, onA, onB, any := anyVary()
	r1, r2 := request("GET", "/a"), request("GET", "/a")
	varyValue(r1, "a1", "X-A")
	varyValue(r2, "a2", "X-A")
	if vf.Bool("b") {
		r1.Header["X-B"] = []string{vf.String("b1", 1, "ab")}
		varyValue(r2, "b2", "X-B")
	}
	g, errs, n := pair(func(g int, r *http.Request) (*http.Response, error) {
		p := response(r, 200, "x")
		if lines != nil {
			p.Header["Vary"] = lines
		}
		return p, nil
	}, r1, r2)
	vf.Assert(errs[0] == nil && errs[1] == nil && g[0] == 1, "both requests succeed")
	same := vf.And(vf.Not(any), vf.Implies(onA, agree(r1, r2, "X-A")), vf.Implies(onB, agree(r1, r2, "X-B")))
	if same {
		vf.Reach("same")
		vf.Assert(n == 1 && g[1] == 1, "matching requests share one origin contact")
	} else {
		vf.Reach("different")
		vf.Assert(n == 2 && g[1] == 2, "different requests have an origin contact each")
	}
}

// A validated response keeps the headers it depends on; a HEAD request obeys
// them, too.
//
// Bounds: a stored response that has to be validated, answered by 304 with or
// without a Vary of its own, naming the same, another, or no header; a second request, GET or HEAD, with a symbolic value of the
// header; a third one with another.
//
//vf:time=60
func C33_Validated() {
	w := newWorld(strictCfg())
	own := vf.Choose("own", 5)
	w.origin = func(r *http.Request) (*http.Response, error) {
		if r.Header.Get("If-None-Match") != "" {
			p := response(r, 304, "", "Etag", "\"e\"")
			if own > 0 {
				p.Header["Vary"] = []string{[...]string{"X-A", "X-B", "", "X-B, X-A"}[own-1]}
			}
			return p, nil
		}
		return response(r, 200, r.Header.Get("X-A"), "Cache-Control", "max-age=1000, no-cache", "Date", now(), "Vary", "X-A", "Etag", "\"e\""), nil
	}
	v := func(t string) string { return vf.String(t, 1, "a-c") }
	v1 := v("v1")
	w.do(request("GET", "/a", "X-A", v1))
	for i := 0; i < 2; i++ {
		method := [...]string{"GET", "HEAD"}[vf.Choose("method", 2)]
		x := v("v")
		_, body := w.do(request(method, "/a", "X-A", x))
		vf.Assert(method == "HEAD" || body == x, "each request gets the response for its header")
	}
	vf.Reach("done")
}

// The rules are the same for all headers, those with a meaning of their own
// included.
//
// Bounds: one of sixteen common headers, named in either letter case, with a
// symbolic value or absent in each of two requests; strict or not; one after
// the other, or overlapping.
//
//vf:time=60
func C33_Names() {
	names := [...]string{"User-Agent", "Accept", "Accept-Encoding", "Accept-Language", "Accept-Charset", "Origin", "Referer", "Cookie",
		"Forwarded", "X-Forwarded-For", "X-Forwarded-Proto", "X-Requested-With", "Save-Data", "Sec-Fetch-Mode", "Content-Type", "Via"}
	name := names[vf.Choose("name", len(names))]
	written := name
	if vf.Bool("lower") {
		written = strings.ToLower(name)
	}
	mk := func(t string) *http.Request {
		r := request("GET", "/a")
		if vf.Bool(t + "has") {
			r.Header[name] = []string{vf.String(t, 1, "a-c*")}
		}
		return r
	}
	r1, r2 := mk("first"), mk("second")
	answer := func(r *http.Request) *http.Response {
		return response(r, 200, "x", "Cache-Control", "max-age=1000", "Date", now(), "Vary", written)
	}
	same := agree(r1, r2, name)
	if vf.Bool("overlap") {
		vf.Assume(name != "Cookie") // never shared
		g, errs, n := pair(func(g int, r *http.Request) (*http.Response, error) { return answer(r), nil }, r1, r2)
		vf.Assert(errs[0] == nil && errs[1] == nil && g[0] == 1, "both requests succeed")
		vf.Assert((n == 1) == same && (g[1] == 1) == same, "exactly matching requests share a response")
		vf.Reach("overlap")
		return
	}
	cc := strictCfg()
	cc.Strict = vf.Bool("strict")
	w := newWorld(cc)
	w.origin = func(r *http.Request) (*http.Response, error) { return answer(r), nil }
	w.do(r1)
	vf.Assert(w.n == 1, "the first request is answered by the origin")
	w.do(r2)
	vf.Assert((w.n == 1) == same, "exactly a matching request is answered from the store")
	vf.Reach("stored")
}
