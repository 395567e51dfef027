package proxy

import (
	"net/http"
	"time"

	"github.com/kacheio/kache/pkg/cache"
	vf "github.com/kacheio/kache/zzvf/vf"
)

// With the debugging header enabled exactly the responses whose content comes
// from the store carry HIT; disabled, no response carries it; the origin never
// sees it.
//
// Bounds: three requests (thorough: four), each GET, HEAD or with credentials,
// at any time up to 30 s after the one before, with the header toggled or
// renamed in between; a lifetime of 10 s; strict or not; an origin that
// validates or not and sends such a header itself or not.
//
//vf:time=90
func C26_Mark() {
	names := [...][2]string{{"", "X-Kache"}, {"x-other", "X-Other"}, {"cache-info", "Cache-Info"}}
	ni := vf.Choose("name", 3)
	name := names[ni]
	cfg := func() *cache.HttpCacheConfig {
		return &cache.HttpCacheConfig{Strict: true, XCache: vf.Bool("on"), XCacheName: name[0], DefaultTTL: "1000s"}
	}
	c := cfg()
	w := newWorld(c, up)
	validates := vf.Bool("validates")
	own := [...]string{"", "HIT", "MISS"}[vf.Choose("own", 3-ni)]
	answer := func(r *http.Request, code int, body string) *http.Response {
		p := response(r, code, body, "Etag", "e", "Cache-Control", "max-age=10", "Date", now())
		if own != "" {
			p.Header.Set(name[1], own)
		}
		return p
	}
	asked := false
	w.origin = func(r *http.Request) (*http.Response, error) {
		for k := range r.Header {
			vf.Assert(k != name[1], "the origin does not see the debugging header")
		}
		asked = r.Header.Get("If-None-Match") != ""
		if asked && validates {
			return answer(r, 304, ""), nil
		}
		asked = false
		return answer(r, 200, "fine"), nil
	}
	n := 3
	if vf.Thorough() {
		n = 4
	}
	for i := 0; i < n; i++ {
		r := request("GET", "/p")
		kind := vf.Choose("kind", 3)
		if kind == 1 {
			r = request("HEAD", "/p")
		} else if kind == 2 {
			r.Header.Set("Authorization", "x")
		}
		before := w.n
		a := w.do(r)
		vf.Assert(a.code == 200 && (kind == 1 || string(a.body) == "fine"), "the request is answered")
		mark := a.sent[name[1]]
		stored := w.n == before || asked
		switch {
		case !c.XCache:
			// A header of the origin is passed on.
			vf.Assert(len(mark) == 0 || own != "" && len(mark) == 1 && mark[0] == own, "there is no debugging header unless enabled")
			vf.Reach("off")
		case stored:
			vf.Assert(len(mark) == 1 && mark[0] == "HIT", "a stored response is marked")
			vf.Reach("hit")
		default:
			vf.Assert(len(mark) == 0 || len(mark) == 1 && mark[0] == "MISS", "an origin's response is not marked as stored")
			vf.Reach("miss")
		}
		vf.Advance(time.Duration(vf.Int("delay", 0, 30)) * time.Second)
		if i < n-1 && vf.Bool("change") {
			c = cfg()
			w.hc.UpdateConfig(c)
		}
	}
}
