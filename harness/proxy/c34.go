package proxy

import (
	"errors"
	"net/http"
	"strings"
	"time"

	"github.com/kacheio/kache/pkg/cache"
	vf "github.com/kacheio/kache/zzvf/vf"
	"github.com/prometheus/client_golang/prometheus"
	dto "github.com/prometheus/client_model/go"
)

// registry keeps what is registered.
type registry struct{ cs []prometheus.Collector }

func (r *registry) Register(c prometheus.Collector) error { r.cs = append(r.cs, c); return nil }
func (r *registry) MustRegister(cs ...prometheus.Collector) {
	r.cs = append(r.cs, cs...)
}
func (r *registry) Unregister(prometheus.Collector) bool { return false }

// counts returns the values of the request counter by its label.
func (r *registry) counts() (m map[string]float64, n int) {
	m = map[string]float64{}
	for _, c := range r.cs {
		ch := make(chan prometheus.Metric, 100)
		c.Collect(ch)
		close(ch)
		for x := range ch {
			if !strings.Contains(x.Desc().String(), "\"kache_http_cache_requests_total\"") {
				continue
			}
			var d dto.Metric
			vf.Assert(x.Write(&d) == nil, "the metric is readable")
			vf.Assert(d.Counter != nil && len(d.Label) == 1 && *d.Label[0].Name == "result", "it is a counter with the result as label")
			m[*d.Label[0].Value] += *d.Counter.Value
			n++
		}
	}
	return m, n
}

// Each request that is looked up in the cache is counted once: as a hit if
// the origin is not asked, as a miss if nothing usable is stored; others, and
// those that validate a stored response, are not counted.
//
// Bounds: three requests (thorough: four), the first for one resource by GET or HEAD, the later ones for two resources or an excluded
// one, GET, HEAD, POST, or with credentials or another value of a header
// the response varies with, at any time up to 30 s after the one before; an origin
// that answers (storable for 10 s or not), validates or not, or fails; strict (with an entity tag, or with a date and Vary) or not.
//
//vf:time=120 ttime=400 transparent=github.com/prometheus/client_golang/prometheus,github.com/prometheus/client_golang/prometheus/promauto,github.com/prometheus/client_golang/prometheus/internal,github.com/prometheus/client_model/go,github.com/prometheus/common/model,google.golang.org/protobuf/proto,google.golang.org/protobuf/types/known/timestamppb
func C34_Count() {
	reg := &registry{}
	mode := vf.Choose("mode", 3)
	w := newWorldIn(reg, &cache.HttpCacheConfig{Strict: mode < 2, DefaultTTL: "1000s",
		Exclude: &cache.Exclude{Path: []string{"^/no"}}}, up)
	c, n := reg.counts()
	vf.Assert(n == 2 && c["hit"] == 0 && c["miss"] == 0, "nothing is counted at first")
	validates, varies := vf.Bool("validates"), mode == 1
	asked, answer := false, 0
	w.origin = func(r *http.Request) (*http.Response, error) {
		asked = r.Header.Get("If-None-Match") != "" || r.Header.Get("If-Modified-Since") != ""
		switch answer {
		case 1:
			return nil, errors.New("lost")
		case 2:
			return response(r, 200, "private", "Cache-Control", "no-store", "Etag", "e"), nil
		}
		p := response(r, 200, "fine", "Etag", "e", "Cache-Control", "max-age=10", "Date", now())
		if asked && validates {
			p = response(r, 304, "", "Etag", "e", "Cache-Control", "max-age=10", "Date", now())
		}
		if varies {
			p.Header.Set("Vary", "X-V")
			p.Header.Del("Etag")
		}
		return p, nil
	}
	hits, misses := 0, 0
	steps := 3
	if vf.Thorough() {
		steps = 4
	}
	for i := 0; i < steps; i++ {
		r := request("GET", "/p")
		looked := true
		kinds := 7
		if i == 0 {
			kinds = 2
		}
		switch vf.Choose("kind", kinds) {
		case 1:
			r.Method = "HEAD"
		case 2:
			r.Method, looked = "POST", false
		case 3:
			r.Header.Set("Authorization", "x")
			looked = false
		case 4:
			r.Header.Set("X-V", "other")
		case 5:
			r = request("GET", "/q")
		case 6:
			r = request("GET", "/no")
			looked = false
		}
		answer = vf.Choose("answer", 2+i%2)
		asked = false
		before := w.n
		w.do(r)
		switch {
		case w.n == before:
			hits++
			vf.Assert(looked, "only requests that take part are answered from the store")
			vf.Reach("hit")
		case looked && !asked:
			misses++
			vf.Reach("miss")
		default:
			vf.Reach("neither")
		}
		c, n := reg.counts()
		vf.Assert(n == 2 && c["hit"] == float64(hits), "exactly the answers from the store count as hits")
		vf.Assert(c["miss"] == float64(misses), "exactly the requests without a stored response count as misses")
		vf.Advance(time.Duration(vf.Int("delay", 0, 30)) * time.Second)
	}
}
