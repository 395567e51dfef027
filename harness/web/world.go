// Package web holds the harnesses for the HTTP caching layer.
package web

import (
	"context"
	"io"
	"net/http"
	"net/url"
	"strings"
	"time"

	"github.com/kacheio/kache/pkg/cache"
	"github.com/kacheio/kache/pkg/provider"
	"github.com/kacheio/kache/pkg/server/middleware"
	vf "github.com/kacheio/kache/zzvf/vf"
	"github.com/prometheus/client_golang/prometheus"
)

// world is a caching transport in front of a scripted origin server.
type world struct {
	hc     *cache.HttpCache
	tr     *middleware.Transport
	pd     provider.Provider
	origin func(*http.Request) (*http.Response, error)
	n      int           // number of origin contacts
	last   *http.Request // last request seen by the origin
}

type rtf func(*http.Request) (*http.Response, error)

func (f rtf) RoundTrip(r *http.Request) (*http.Response, error) { return f(r) }

func memory() provider.Provider {
	pd, err := provider.NewInMemoryCache(provider.InMemoryCacheConfig{
		MaxSize: 1 << 20, MaxItemSize: 1 << 16, DefaultTTL: "120s"})
	vf.Assert(err == nil, "the in-memory provider is created")
	return pd
}

func newWorldOn(cfg *cache.HttpCacheConfig, pd provider.Provider) *world {
	w := &world{pd: pd}
	hc, err := cache.NewHttpCache(cfg, pd)
	vf.Assert(err == nil, "the cache is created")
	w.hc = hc
	w.tr = middleware.NewCachedTransport(hc, prometheus.NewRegistry())
	w.tr.Transport = rtf(func(r *http.Request) (*http.Response, error) {
		w.n++
		w.last = r
		return w.origin(r)
	})
	return w
}

func newWorld(cfg *cache.HttpCacheConfig) *world { return newWorldOn(cfg, memory()) }

const day = 24 * 3600

// strictCfg has a TTL that does not interfere with the freshness logic.
func strictCfg() *cache.HttpCacheConfig {
	return &cache.HttpCacheConfig{Strict: true, DefaultTTL: "2000000h"}
}

func request(method, path string, hdr ...string) *http.Request {
	h := http.Header{}
	for i := 0; i < len(hdr); i += 2 {
		h[hdr[i]] = append(h[hdr[i]], hdr[i+1])
	}
	r := &http.Request{Method: method, Host: "h", Proto: "HTTP/1.1", ProtoMajor: 1, ProtoMinor: 1,
		URL: &url.URL{Scheme: "http", Host: "h", Path: path}, Header: h}
	return r.WithContext(context.Background())
}

func response(r *http.Request, code int, body string, hdr ...string) *http.Response {
	h := http.Header{}
	for i := 0; i < len(hdr); i += 2 {
		h[hdr[i]] = append(h[hdr[i]], hdr[i+1])
	}
	cl := int64(len(body))
	var b io.ReadCloser = io.NopCloser(strings.NewReader(body))
	if r != nil && r.Method == "HEAD" || code == 304 {
		b = http.NoBody
	}
	return &http.Response{StatusCode: code, Proto: "HTTP/1.1", ProtoMajor: 1, ProtoMinor: 1,
		Header: h, Body: b, ContentLength: cl, Request: r}
}

// do sends a request through the cache and returns the response and its body.
func (w *world) do(r *http.Request) (*http.Response, string) {
	resp, err := w.tr.RoundTrip(r)
	vf.Assert(err == nil, "the round trip succeeds")
	return resp, readAll(resp)
}

func readAll(resp *http.Response) string {
	b, err := io.ReadAll(resp.Body)
	vf.Assert(err == nil, "the body is readable")
	_ = resp.Body.Close()
	return string(b)
}

func now() string { return vf.HTTPDate(time.Now().Unix()) }

func ago(sec int64) string { return vf.HTTPDate(time.Now().Unix() - sec) }
