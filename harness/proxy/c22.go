package proxy

import (
	"io"
	"net/http"
	"net/url"
	"strings"

	"github.com/kacheio/kache/pkg/cache"
	"github.com/kacheio/kache/pkg/config"
	vf "github.com/kacheio/kache/zzvf/vf"
)

func join(a, b string) string {
	if strings.HasSuffix(a, "/") {
		a = a[:len(a)-1]
	}
	if !strings.HasPrefix(b, "/") {
		b = "/" + b
	}
	return a + b
}

// The first upstream whose path is a prefix of the request's gets the request;
// without one the client gets 503 and no origin is contacted.
//
// Bounds: up to three upstreams with paths from a list of eight; request paths
// of up to three (thorough: four) symbolic bytes, percent-encoded or not; GET, HEAD or POST; asked twice,
// and again after five requests for each of six other paths.
//
//vf:time=60
func C22_Route() {
	paths := [...]string{"/", "/a", "/a/", "/ab", "/a.b", "/b", "", "/ b"}
	hosts := [...]string{"one:81", "two:82", "three:83"}
	n := 1 + vf.Choose("n", 2)
	max := 3
	if vf.Thorough() {
		n = 1 + vf.Choose("n", 3)
		max = 4
	}
	var ups []*config.Upstream
	for i := 0; i < n; i++ {
		p := paths[vf.Choose("path", len(paths))]
		ups = append(ups, &config.Upstream{Name: hosts[i], Addr: "http://" + hosts[i], Path: p})
	}
	w := newWorld(&cache.HttpCacheConfig{Strict: true}, ups...)
	w.origin = func(r *http.Request) (*http.Response, error) {
		return response(r, 200, r.URL.Host, "Cache-Control", "max-age=100"), nil
	}
	p := "/" + vf.String("p", vf.Choose("len", max), "ab./ ")
	raw := ""
	for i := range p {
		if p[i] == ' ' {
			raw += "%20"
		} else if p[i] == 'a' && vf.Bool("encoded") {
			raw += "%61"
		} else {
			raw += p[i : i+1]
		}
	}
	want := -1
	for i := n - 1; i >= 0; i-- {
		if strings.HasPrefix(p, ups[i].Path) {
			want = i
		}
	}
	method := [...]string{"GET", "HEAD", "POST"}[vf.Choose("method", 3)]
	a := w.do(requestURI(method, raw))
	if want < 0 {
		vf.Assert(a.code == 503, "a request without an upstream is answered with 503")
		vf.Assert(w.n == 0, "a request without an upstream contacts no origin")
		vf.Reach("unmatched")
		return
	}
	vf.Assert(a.code == 200, "a request with an upstream is answered")
	vf.Assert(w.n == 1 && w.last.URL.Host == hosts[want] && w.last.Host == hosts[want] && w.last.URL.Scheme == "http",
		"the first matching upstream gets the request")
	vf.Assert(w.last.URL.Path == p && w.last.URL.EscapedPath() == raw && w.last.Method == method, "the path is passed on unchanged")
	b := w.do(requestURI(method, raw))
	vf.Assert(b.code == 200 && string(b.body) == string(a.body), "the answer comes from the same upstream again")
	if n > 1 {
		for i, q := range paths {
			for j := 0; i != 0 && i < 6 && j < 5; j++ {
				w.do(requestURI("POST", q+"/x"))
			}
		}
		w.do(requestURI("POST", raw))
		vf.Assert(w.last.URL.Path == p && w.last.URL.Host == hosts[want], "the upstream does not depend on earlier requests")
	}
	vf.Reach("matched")
}

func requestURI(method, raw string) *http.Request {
	u, err := url.ParseRequestURI(raw)
	vf.Assert(err == nil, "the request is valid")
	r := request(method, "/")
	r.URL, r.RequestURI = u, raw
	return r
}

// The upstream is asked for its own path joined with the client's by one
// slash, without decoding or encoding anything, and for the same query.
//
// Bounds: eight upstream addresses; paths of up to three pieces: symbolic
// letters, slashes, dots and percent-encoded slashes, letters and blanks;
// after short
// paths a query of up to two symbolic bytes.
//
//vf:time=60
func C22_URL() {
	ups := [...][2]string{{"http://up:80", ""}, {"http://up", "/"}, {"https://up", "/base"}, {"http://up", "/base/"},
		{"http://up", "/b%2Fc"}, {"http://up", "/b%2F"}, {"http://up", "/b%20c/"}, {"http://u.p", "/%61"}}
	u := ups[vf.Choose("upstream", len(ups))]
	w := newWorld(&cache.HttpCacheConfig{Strict: true}, &config.Upstream{Name: "a", Addr: u[0] + u[1], Path: "/"})
	w.origin = func(r *http.Request) (*http.Response, error) { return response(r, 200, ""), nil }
	raw := "/"
	n := 2
	if vf.Thorough() {
		n = 3
	}
	k := vf.Choose("pieces", n+1)
	for i := k; i > 0; i-- {
		switch vf.Choose("piece", 5) {
		case 0:
			raw += vf.String("letter", 1, "a-z0-9:@!~.")
		case 1:
			raw += "/"
		case 2:
			raw += "%2F"
		case 3:
			raw += "%4" + vf.String("hex", 1, "08Ff")
		case 4:
			raw += "%20"
		}
	}
	uri := raw
	if k < 2 && vf.Bool("query") {
		uri += "?" + vf.String("query", vf.Choose("qlen", 3-2*k), "a=&;%?/")
	}
	pu, err := url.ParseRequestURI(uri)
	vf.Assert(err == nil, "the request is valid")
	r := request([...]string{"GET", "POST"}[vf.Choose("method", 2)], "/")
	r.URL, r.RequestURI = pu, uri
	a := w.do(r)
	vf.Assert(a.code == 200 && w.n == 1, "the request is passed on")
	vf.Assert(w.last.URL.Scheme+"://"+w.last.URL.Host == u[0] && w.last.Host == w.last.URL.Host, "the upstream's scheme and host are used")
	vf.Assert(w.last.URL.RequestURI() == join(u[1], uri), "the upstream is asked for the joined path")
	vf.Assert(w.last.RequestURI == "", "the request is a client request")
	vf.Reach("done")
}

// Requests and responses are passed on completely, except for the headers that
// concern one connection only; the client's address is added.
//
// Bounds: five methods; symbolic end-to-end header values, body bytes and
// status; with or without user agent, connection headers and forwarding
// headers.
//
//vf:time=60
func C22_Message() {
	w := newWorld(&cache.HttpCacheConfig{Strict: true}, &config.Upstream{Name: "a", Addr: "http://up:80", Path: "/"})
	var got []byte
	code := int(vf.Int("status", 200, 599))
	ans := vf.String("answer", 2, "\x00-\xff")
	rv := vf.String("rvalue", 1, "!-~")
	rconn := vf.Bool("rconn")
	w.origin = func(r *http.Request) (*http.Response, error) {
		if r.Body != nil {
			var err error
			got, err = io.ReadAll(r.Body)
			vf.Assert(err == nil, "the body is readable")
		}
		p := response(r, code, ans, "X-R", rv, "X-R", "second", "Content-Type", "x/y", "Set-Cookie", "a=b", "Set-Cookie", "c=d")
		if rconn {
			p.Header["Connection"] = []string{"X-Rconn, keep-alive"}
			p.Header["X-Rconn"] = []string{"1"}
			p.Header["Keep-Alive"] = []string{"5"}
		}
		return p, nil
	}
	method := [...]string{"GET", "HEAD", "POST", "PUT", "DELETE"}[vf.Choose("method", 5)]
	v := vf.String("value", 1, "!-~")
	r := request(method, "/p", "X-V", v, "X-V", "second", "Cookie", "c", "Accept", "*/*")
	text := ""
	if method == "POST" || method == "PUT" {
		text = vf.String("body", 2, "\x00-\xff")
		r.Body = io.NopCloser(strings.NewReader(text))
		r.ContentLength = 2
	}
	agent := vf.Choose("agent", 3)
	if agent > 0 {
		r.Header["User-Agent"] = []string{[...]string{"", "", "ua"}[agent]}
	}
	conn := vf.Bool("conn")
	if conn {
		r.Header["Connection"] = []string{"X-Conn"}
		r.Header["X-Conn"] = []string{"1"}
		r.Header["Keep-Alive"] = []string{"5"}
	}
	fwd := vf.Bool("fwd")
	if fwd {
		r.Header["X-Forwarded-For"] = []string{"198.51.100.7"}
	}
	a := w.do(r)
	vf.Assert(w.n == 1 && w.last.Method == method, "the request is passed on")
	h := w.last.Header
	vf.Assert(len(h["X-V"]) == 2 && h["X-V"][0] == v && h["X-V"][1] == "second", "end-to-end headers are passed on")
	vf.Assert(h.Get("Cookie") == "c" && h.Get("Accept") == "*/*", "end-to-end headers are passed on")
	vf.Assert(string(got) == text, "the body is passed on")
	vf.Assert(h.Get("X-Conn") == "" && h.Get("Keep-Alive") == "" && h.Get("Connection") == "", "connection headers are removed")
	if fwd {
		vf.Assert(h.Get("X-Forwarded-For") == "198.51.100.7, 192.0.2.9", "the client's address is added")
	} else {
		vf.Assert(h.Get("X-Forwarded-For") == "192.0.2.9", "the client's address is added")
	}
	ua, ok := h["User-Agent"]
	vf.Assert(ok && len(ua) == 1 && ua[0] == [...]string{"kache", "", "ua"}[agent], "the user agent is the client's, else kache")
	if code == 304 {
		ans = ""
	}
	if method == "HEAD" {
		ans = ""
	}
	vf.Assert(a.code == code, "the status is passed on")
	vf.Assert(string(a.body) == ans, "the response body is passed on")
	vf.Assert(len(a.sent["X-R"]) == 2 && a.sent["X-R"][0] == rv && a.sent["X-R"][1] == "second" && a.sent.Get("Content-Type") == "x/y", "response headers are passed on")
	vf.Assert(len(a.sent["Set-Cookie"]) == 2, "cookies are passed on")
	vf.Assert(a.sent.Get("X-Rconn") == "" && a.sent.Get("Keep-Alive") == "" && a.sent.Get("Connection") == "", "connection headers are removed")
	vf.Reach("done")
}
