package proxy

import (
	"net/http"
	"time"

	"github.com/kacheio/kache/pkg/cache"
	vf "github.com/kacheio/kache/zzvf/vf"
)

// HEAD requests are answered like GET requests without the body, and no GET
// request is ever answered with the empty body of a HEAD request.
//
// Bounds: four requests, each GET or HEAD, up to 20 s apart, lifetime 10 s, kept for
// 30 s; a
// symbolic body, declared or not; strict or not; an origin that validates or
// not.
//
//vf:time=90
func C30_Head() {
	strict := vf.Bool("strict")
	w := newWorld(&cache.HttpCacheConfig{Strict: strict, DefaultTTL: "30s"}, up)
	text := vf.String("body", 2, "\x00-\xff")
	validates, declared := vf.Bool("validates"), vf.Bool("declared")
	w.origin = func(r *http.Request) (*http.Response, error) {
		if validates && r.Header.Get("If-None-Match") != "" {
			return response(r, 304, "", "Etag", "e", "Cache-Control", "max-age=10"), nil
		}
		p := response(r, 200, text, "Etag", "e", "Cache-Control", "max-age=10", "X-V", "v")
		if declared {
			p.Header.Set("Content-Length", "2")
		} else {
			p.ContentLength = -1
		}
		return p, nil
	}
	for i := 0; i < 4; i++ {
		head := vf.Bool("head")
		before := w.n
		if head {
			a := w.do(request("HEAD", "/p"))
			vf.Assert(a.code == 200 && len(a.body) == 0, "a HEAD request is answered without body")
			vf.Assert(a.sent.Get("X-V") == "v" && a.sent.Get("Etag") == "e", "a HEAD request is answered with the headers")
			if declared {
				vf.Assert(a.sent.Get("Content-Length") == "2", "a HEAD request is told the length of the body")
			}
			if w.n == before {
				vf.Reach("head hit")
			}
		} else {
			a := w.do(request("GET", "/p"))
			vf.Assert(a.code == 200 && string(a.body) == text, "a GET request is answered with the body")
			vf.Assert(a.sent.Get("X-V") == "v" && a.sent.Get("Etag") == "e", "a GET request is answered with the headers")
			if w.n == before {
				vf.Reach("get hit")
			}
		}
		vf.Advance(time.Duration(vf.Int("delay", 0, 20)) * time.Second)
	}
}
