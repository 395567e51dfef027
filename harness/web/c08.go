package web

import (
	"net/http"

	"github.com/kacheio/kache/pkg/cache"
	"github.com/kacheio/kache/pkg/server/middleware"
	vf "github.com/kacheio/kache/zzvf/vf"
)

func digit(b byte) bool { return vf.And(b >= '0', b <= '9') }

// Requests whose path matches an exclude pattern never take part in caching.
//
// Bounds: patterns ^/a[b ], \.css$, /x[0-9]/ and an invalid one, in any
// combination; symbolic paths of 5 and 6 characters over the pattern's
// characters; one stored response for the same path.
//
//vf:time=60
func C08_Path() {
	ex := &cache.Exclude{}
	p0, p1, p2 := vf.Bool("p0"), vf.Bool("p1"), vf.Bool("p2")
	if p0 {
		ex.Path = append(ex.Path, "^/a[b ]")
	}
	if vf.Bool("invalid") {
		ex.Path = append(ex.Path, "a(")
	}
	if p1 {
		ex.Path = append(ex.Path, "\\.css$")
	}
	if p2 {
		ex.Path = append(ex.Path, "/x[0-9]/")
	}
	cfg := strictCfg()
	w := newWorld(cfg)
	n := 5 + vf.Choose("len", 2)
	p := "/" + vf.String("p", n-1, "abxcs.7/ ")
	w.origin = func(r *http.Request) (*http.Response, error) {
		return response(r, 200, "old", "Cache-Control", "max-age=100", "Date", now()), nil
	}
	stored := vf.Bool("stored")
	if stored {
		w.do(request("GET", p)) // before the exclusion is configured
	}
	cfg = strictCfg()
	cfg.Exclude = ex
	w.hc.UpdateConfig(cfg)
	w.origin = func(r *http.Request) (*http.Response, error) {
		return response(r, 200, "new", "Cache-Control", "max-age=100", "Date", now()), nil
	}
	m := vf.And(p0, p[1] == 'a', vf.Or(p[2] == 'b', p[2] == ' '))
	m = vf.Or(m, vf.And(p1, p[n-4] == '.', p[n-3] == 'c', p[n-2] == 's', p[n-1] == 's'))
	for i := 0; i+4 <= n; i++ {
		m = vf.Or(m, vf.And(p2, p[i] == '/', p[i+1] == 'x', digit(p[i+2]), p[i+3] == '/'))
	}
	k, size := w.n, w.pd.Size()
	_, body := w.do(request("GET", p))
	if m {
		vf.Reach("excluded")
		vf.Assert(w.n == k+1 && body == "new", "an excluded path is answered by the origin")
		vf.Assert(w.pd.Size() == size, "an excluded path leaves the store alone")
	} else {
		vf.Reach("included")
		vf.Assert(vf.Implies(stored, body == "old"), "other paths are answered from the store")
		vf.Assert(w.pd.Size() == 1, "other paths are stored")
	}
}

// Requests with an excluded header value never take part in caching.
//
// Bounds: one or two configured headers, written with dashes or underscores;
// request header absent or any value of 3 letters, in one or two lines.
//
//vf:time=40
func C08_Header() {
	cfg := strictCfg()
	cfg.Exclude = &cache.Exclude{Header: map[string]string{}}
	name := "x-requested-with"
	if vf.Bool("underscore") {
		name = "x_requested_with"
	}
	cfg.Exclude.Header[name] = "xyz"
	two := vf.Bool("two")
	if two {
		cfg.Exclude.Header["X-Other"] = "abc"
	}
	w := newWorld(cfg)
	r := request("GET", "/a")
	m := false
	if vf.Bool("has") {
		v := vf.String("v", 3, "xyza")
		r.Header["X-Requested-With"] = []string{v}
		m = v == "xyz"
	}
	if vf.Bool("hasother") {
		v := vf.String("o", 3, "abcA")
		r.Header["X-Other"] = []string{v}
		m = vf.Or(m, vf.And(two, v == "abc"))
	}
	w.origin = func(r *http.Request) (*http.Response, error) {
		return response(r, 200, "x", "Cache-Control", "max-age=100", "Date", now()), nil
	}
	w.do(r)
	stored := w.pd.Size() == 1
	vf.Assert(stored == vf.Not(m), "stored exactly if no configured header value matches")
	if stored {
		w.do(request("GET", "/a"))
		vf.Assert(w.n == 1, "the stored response is used")
		vf.Reach("stored")
	} else {
		vf.Reach("excluded")
	}
	// Nor is a stored response used for an excluded request.
	r = request("GET", "/a", "X-Requested-With", "xyz")
	n := w.n
	w.do(r)
	vf.Assert(w.n == n+1, "an excluded request reaches the origin")
}

// Responses of an excluded content type, larger than the size configured for
// it, are passed on but not stored.
//
// Bounds: up to two rules (image/.*, ^text/(css|html)$) each without size or
// with a size up to 10^6, in either order; five content types and a missing
// one; declared content length any value up to 2*10^6 or unknown; strict and
// cache-all mode.
//
//vf:time=60
func C08_Content() {
	cfg := strictCfg()
	cfg.Strict = vf.Bool("strict")
	cfg.Exclude = &cache.Exclude{}
	img, txt := vf.Bool("img"), vf.Bool("txt")
	imgSize, txtSize := 0, 0
	if vf.Bool("imgsized") {
		imgSize = int(vf.Int("imgsize", 1, 1000000))
	}
	if vf.Bool("txtsized") {
		txtSize = int(vf.Int("txtsize", 1, 1000000))
	}
	if img {
		cfg.Exclude.Content = append(cfg.Exclude.Content, cache.Content{Type: "image/.*", Size: imgSize})
	}
	if txt {
		cfg.Exclude.Content = append(cfg.Exclude.Content, cache.Content{Type: "^text/(css|html)$", Size: txtSize})
	}
	if img && txt && vf.Bool("swap") {
		c := cfg.Exclude.Content
		c[0], c[1] = c[1], c[0]
	}
	w := newWorld(cfg)
	types := [...]string{"", "image/png", "text/css", "text/html", "text/html; charset=utf-8", "application/json"}
	ti := vf.Choose("type", len(types))
	size := vf.Int("size", 0, 2000000)
	got := w.hc.IsExcludedContent(types[ti], size)
	want := vf.Or(
		vf.And(img, ti == 1, vf.Or(imgSize == 0, size > int64(imgSize))),
		vf.And(txt, vf.Or(ti == 2, ti == 3), vf.Or(txtSize == 0, size > int64(txtSize))))
	vf.Assert(got == want, "excluded exactly if type and size match a rule")

	// The decision is applied to what is stored.
	w.origin = func(r *http.Request) (*http.Response, error) {
		resp := response(r, 200, "12345", "Cache-Control", "max-age=100", "Date", now())
		if types[ti] != "" {
			resp.Header.Set("Content-Type", types[ti])
		}
		return resp, nil
	}
	ex := w.hc.IsExcludedContent(types[ti], 5)
	resp, body := w.do(request("GET", "/a"))
	vf.Assert(resp.StatusCode == 200 && body == "12345", "the response is passed on")
	vf.Assert((w.pd.Size() == 0) == ex, "stored exactly if not excluded")
	if ex {
		vf.Reach("excluded")
	} else {
		vf.Reach("stored")
	}
}

// Rules overlapping in type all count.
//
// Bounds: two rules for the same type with any sizes up to 10^6 (0: any), any
// content length up to 2*10^6.
//
//vf:time=30
func C08_Overlap() {
	s1, s2 := int(vf.Int("s1", 0, 1000000)), int(vf.Int("s2", 0, 1000000))
	cfg := strictCfg()
	cfg.Exclude = &cache.Exclude{Content: []cache.Content{{Type: "text/.*", Size: s1}, {Type: "text/css", Size: s2}}}
	w := newWorld(cfg)
	n := vf.Int("n", 0, 2000000)
	got := w.hc.IsExcludedContent("text/css", n)
	vf.Assert(got == vf.Or(s1 == 0, n > int64(s1), s2 == 0, n > int64(s2)), "every matching rule counts")
	if got {
		vf.Reach("excluded")
	} else {
		vf.Reach("included")
	}
}

// Requests that come at the same time do not change this: an excluded request
// neither gets the response of another one nor gives its own.
//
// Bounds: two overlapping requests for one path, each with a symbolic value of
// the configured header; the path excluded or not.
//
//vf:time=60
func C08_Together() {
	cfg := strictCfg()
	cfg.Exclude = &cache.Exclude{Header: map[string]string{"x_user": "xy"}}
	path := vf.Bool("path")
	if path {
		cfg.Exclude.Path = []string{"^/a"}
	}
	w := newWorld(cfg)
	var ex [2]bool
	var rs [2]*http.Request
	for i := range rs {
		v := vf.String("v", 2, "xyz")
		rs[i] = request("GET", "/a", "X-User", v)
		ex[i] = vf.Or(path, v == "xy")
	}
	// pair ends with a plain request for the same path that has to be a contact
	// of its own.
	g, errs, n := pairOn(func(origin http.RoundTripper) http.RoundTripper {
		w.tr.Transport = origin
		return middleware.NewCoalesced(w.tr)
	}, func(g int, r *http.Request) (*http.Response, error) {
		return response(r, 200, "x", "Cache-Control", "no-cache", "Date", now()), nil
	}, rs[0], rs[1])
	vf.Assert(errs[0] == nil && errs[1] == nil, "both requests succeed")
	vf.Assert(g[0] == 1, "the first request gets its own response")
	if vf.Or(ex[0], ex[1]) {
		vf.Reach("excluded")
		vf.Assert(n == 2 && g[1] == 2, "an excluded request is answered by the origin")
	} else {
		vf.Reach("shared")
		vf.Assert(n == 1 && g[1] == 1, "other requests share one origin contact")
	}
}
