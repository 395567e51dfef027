package proxy

import (
	"io"
	"net/http"
	"strings"
	"sync"
	"sync/atomic"
	"time"

	"github.com/kacheio/kache/pkg/cache"
	vf "github.com/kacheio/kache/zzvf/vf"
)

// Client requests, invalidations, listings and configuration changes may run
// at the same time: none crashes, blocks or races, and every client gets one
// complete response of the origin.
//
// Bounds: two requests for the same page or two pages (GET or HEAD), nothing or
// a response stored at any time up to 300 s before (fresh for 100 s), and one operation of the API (quick:
// beside two GET requests for the same page only); every
// interleaving with one preemption (thorough: two); all accesses to memory are
// checked for data races.
//
//vf:time=100 ttime=600
func C31_Proxy() {
	w := newWorld(&cache.HttpCacheConfig{Strict: true, XCache: true}, up)
	var n atomic.Int32
	w.originOnly = func(r *http.Request) (*http.Response, error) {
		g := string(rune('0' + n.Add(1)))
		if r.Header.Get("If-None-Match") != "" && r.URL.Path == "/p" {
			return response(r, 304, "", "Etag", "e", "Cache-Control", "max-age=100"), nil
		}
		return response(r, 200, "body "+r.URL.Path+g, "Etag", "e", "Cache-Control", "max-age=100", "X-N", g), nil
	}
	if vf.Bool("before") {
		w.do(request("GET", "/p"))
		vf.Advance(time.Duration(vf.Int("elapsed", 0, 300)) * time.Second)
	}
	type ask struct{ method, path string }
	asks := [2]ask{{"GET", "/p"}, [...]ask{{"GET", "/p"}, {"HEAD", "/p"}, {"GET", "/q"}}[vf.Choose("second", 3)]}
	kind := 5
	if asks[1] == asks[0] || vf.Thorough() {
		kind = vf.Choose("op", 5)
	}
	var wg sync.WaitGroup
	wg.Add(3)
	vf.DetectRaces()
	vf.Explore(1)
	if vf.Thorough() {
		vf.Explore(2)
	}
	for _, q := range asks {
		q := q
		go func() {
			defer wg.Done()
			r := request(q.method, q.path)
			r.URL.Scheme, r.URL.Host, r.RequestURI = "http", "up:80", ""
			a, err := w.srv.VFTransport().RoundTrip(r)
			vf.Assert(err == nil && a.StatusCode == 200, "a client is served")
			b, err := io.ReadAll(a.Body)
			vf.Assert(err == nil && a.Body.Close() == nil, "a client can read the body")
			g := a.Header.Get("X-N")
			vf.Assert(len(g) == 1, "a client gets the headers")
			if q.method == "GET" {
				vf.Assert(string(b) == "body "+q.path+g, "a client gets one complete response")
			} else {
				vf.Assert(len(b) == 0, "a HEAD request gets no body")
			}
		}()
	}
	api := func(method, path, body string) *http.Request {
		r := request(method, path)
		r.Body = io.NopCloser(strings.NewReader(body))
		return r
	}
	a := &rec{h: http.Header{}}
	go func() {
		defer wg.Done()
		switch kind {
		case 0:
			r := api("PURGE", "/", "")
			r.Header.Set("X-Purge-Key", "*")
			w.srv.CacheKeyPurgeHandler(a, r)
		case 1:
			w.srv.CacheFlushHandler(a, api("DELETE", "/", ""))
		case 2:
			w.srv.CacheKeysHandler(a, api("GET", "/", ""))
		case 3:
			w.srv.CacheConfigHandler(a, api("GET", "/", ""))
		case 4:
			w.srv.CacheConfigUpdateHandler(a, api("PUT", "/", "strict: true\nx_header: false\ndefault_ttl: 50s\ntimeouts: [{path: ^/p, ttl: 20s}]\nexclude: {path: [^/x], header: {X-N: \"9\"}}\n"))
		}
	}()
	wg.Wait()
	vf.StopExplore()
	vf.Assert(a.code == 0 || a.code == 200, "the operation of the API succeeds")
	b := w.do(request("GET", "/p"))
	vf.Assert(b.code == 200 && string(b.body) == "body /p"+b.sent.Get("X-N"), "a later client is served")
	if kind == 4 {
		vf.Assert(b.sent.Get("X-Kache") == "", "the new settings are in use")
	}
	vf.Reach("done")
}
