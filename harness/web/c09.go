package web

import (
	"context"
	"net/http"
	"time"

	"github.com/kacheio/kache/pkg/cache"
	vf "github.com/kacheio/kache/zzvf/vf"
)

// A stored response gets the TTL of the first timeout whose pattern matches
// its path, else the default TTL, else 120 s; and it is not served from the
// store afterwards.
//
// Bounds: up to three timeouts (^/[a%], b$, invalid) in two orders with symbolic
// TTLs up to 10^6 s; default TTL absent, invalid or symbolic; symbolic paths
// of 3 characters, some of them escaped in the request; configured at the
// start or after another configuration was in use; any delay up to 2*10^6 s; strict and cache-all mode.
//
//vf:time=60
func C09_Path() {
	cfg := &cache.HttpCacheConfig{Strict: vf.Bool("strict")}
	t1, t2 := vf.Int("t1", 0, 1000000), vf.Int("t2", 0, 1000000)
	h1, h2 := vf.Bool("h1"), vf.Bool("h2")
	var list []cache.Timeout
	if h1 {
		list = append(list, cache.Timeout{Path: "^/[a%]", TTL: time.Duration(t1) * time.Second})
	}
	if vf.Bool("invalid") {
		list = append(list, cache.Timeout{Path: "*", TTL: time.Millisecond})
	}
	if h2 {
		list = append(list, cache.Timeout{Path: "b$", TTL: time.Duration(t2) * time.Second})
	}
	swap := h1 && h2 && vf.Bool("swap")
	if swap {
		list[0], list[len(list)-1] = list[len(list)-1], list[0]
	}
	cfg.Timeouts = list
	ttl := int64(120)
	switch vf.Choose("default", 3) {
	case 1:
		cfg.DefaultTTL = "abc"
	case 2:
		ttl = vf.Int("ttl", 1, 1000000)
		cfg.DefaultTTL = vf.Dec(ttl) + "s"
	}
	other := &cache.HttpCacheConfig{Strict: true, DefaultTTL: "7s"}
	reload := h1 && vf.Bool("reload")
	if reload {
		other.Timeouts = []cache.Timeout{{Path: "b", TTL: 5 * time.Second}}
		cfg, other = other, cfg
	}
	w := newWorld(cfg)
	p := "/" + vf.String("p", 2, "abc %")
	m1, m2 := vf.And(h1, vf.Or(p[1] == 'a', p[1] == '%')), vf.And(h2, p[2] == 'b')
	if swap {
		ttl = vf.Ite(m2, t2, vf.Ite(m1, t1, ttl))
	} else {
		ttl = vf.Ite(m1, t1, vf.Ite(m2, t2, ttl))
	}
	w.origin = func(r *http.Request) (*http.Response, error) {
		return response(r, 200, "old", "Cache-Control", "max-age=9000000", "Date", now()), nil
	}
	if reload {
		w.do(request("GET", p))
		w.hc.UpdateConfig(other)
		vf.Assert(w.pd.Flush(context.Background()) == nil, "the cache is emptied")
		w.n = 0
	}
	w.do(request("GET", p))
	d := vf.Int("delay", 0, 2000000)
	vf.Advance(time.Duration(d) * time.Second)
	w.do(request("GET", p))
	if w.n == 1 {
		vf.Reach("found")
		vf.Assert(d <= ttl, "not served after its TTL")
	} else {
		vf.Reach("expired")
		vf.Assert(d >= ttl, "served during its TTL")
	}
}
