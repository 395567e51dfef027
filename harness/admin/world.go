// Package admin holds the harnesses for the administrative API and the
// cluster.
package admin

import (
	"context"
	"io"
	"net/http"
	"net/url"
	"strings"
	"time"

	"github.com/kacheio/kache/pkg/api"
	"github.com/kacheio/kache/pkg/cache"
	"github.com/kacheio/kache/pkg/config"
	"github.com/kacheio/kache/pkg/provider"
	"github.com/kacheio/kache/pkg/server"
	vf "github.com/kacheio/kache/zzvf/vf"
	"github.com/prometheus/client_golang/prometheus"
)

// rec records a response.
type rec struct {
	h    http.Header
	code int
	body []byte
}

func (r *rec) Header() http.Header { return r.h }

func (r *rec) WriteHeader(code int) {
	if r.code == 0 {
		r.code = code
	}
}

func (r *rec) Write(b []byte) (int, error) {
	r.WriteHeader(200)
	r.body = append(r.body, b...)
	return len(b), nil
}

// do sends a request to h.
func do(h http.Handler, r *http.Request) *rec {
	w := &rec{h: http.Header{}}
	h.ServeHTTP(w, r)
	if w.code == 0 {
		w.code = 200
	}
	return w
}

func request(method, path string, hdr ...string) *http.Request {
	h := http.Header{}
	for i := 0; i < len(hdr); i += 2 {
		h[hdr[i]] = append(h[hdr[i]], hdr[i+1])
	}
	r := &http.Request{Method: method, Host: "h", Proto: "HTTP/1.1", ProtoMajor: 1, ProtoMinor: 1,
		URL: &url.URL{Path: path}, Header: h, RemoteAddr: "192.0.2.9:1234", Body: http.NoBody}
	return r.WithContext(context.Background())
}

// world is a server with its administrative API.
type world struct {
	cfg *config.Configuration
	pd  provider.Provider
	hc  *cache.HttpCache
	srv *server.Server
	api *api.API
}

func memory() provider.Provider {
	pd, err := provider.NewInMemoryCache(provider.InMemoryCacheConfig{})
	vf.Assert(err == nil, "the in-memory provider is created")
	return pd
}

func newWorld(a *config.API) *world {
	w := &world{pd: memory()}
	w.cfg = &config.Configuration{API: a, HttpCache: &cache.HttpCacheConfig{Strict: true, DefaultTTL: "7s"}, Provider: &provider.ProviderBackendConfig{}}
	return w.start()
}

func (w *world) start() *world {
	var err error
	w.hc, err = cache.NewHttpCache(w.cfg.HttpCache, w.pd)
	vf.Assert(err == nil, "the cache is created")
	w.srv, err = server.NewServer(w.cfg, w.pd, w.hc, prometheus.NewRegistry())
	vf.Assert(err == nil, "the server is created")
	w.api, err = api.New(*w.cfg.API, w.srv)
	vf.Assert(err == nil, "the API is created")
	return w
}

const hour = time.Hour

func (w *world) set(keys ...string) {
	for _, k := range keys {
		w.pd.Set(k, []byte("1"), hour)
	}
}

func (w *world) has(k string) bool { return w.pd.Get(context.Background(), k) != nil }

func body(s string) io.ReadCloser { return io.NopCloser(strings.NewReader(s)) }
