// Package proxy holds the harnesses for the whole proxy: routing, forwarding,
// caching and error answers as a client sees them.
package proxy

import (
	"context"
	"io"
	"net/http"
	"net/url"
	"strings"
	"time"

	"github.com/kacheio/kache/pkg/cache"
	"github.com/kacheio/kache/pkg/config"
	"github.com/kacheio/kache/pkg/provider"
	"github.com/kacheio/kache/pkg/server"
	"github.com/kacheio/kache/pkg/server/middleware"
	vf "github.com/kacheio/kache/zzvf/vf"
	"github.com/prometheus/client_golang/prometheus"
)

// rec records a response.
type rec struct {
	h     http.Header // as set so far
	sent  http.Header // as sent
	code  int
	body  []byte
	early int // informational responses
}

func (r *rec) Header() http.Header { return r.h }

func (r *rec) WriteHeader(code int) {
	if code < 200 {
		r.early++
		return
	}
	if r.code == 0 {
		r.code = code
		r.sent = r.h.Clone()
	}
}

func (r *rec) Write(b []byte) (int, error) {
	r.WriteHeader(200)
	r.body = append(r.body, b...)
	return len(b), nil
}

type rtf func(*http.Request) (*http.Response, error)

func (f rtf) RoundTrip(r *http.Request) (*http.Response, error) { return f(r) }

// world is a proxy in front of scripted origins.
type world struct {
	srv    *server.Server
	hc     *cache.HttpCache
	pd     provider.Provider
	origin func(*http.Request) (*http.Response, error)
	n      int
	last   *http.Request

	// originOnly replaces origin and may be called concurrently.
	originOnly func(*http.Request) (*http.Response, error)
}

func newWorld(cc *cache.HttpCacheConfig, ups ...*config.Upstream) *world {
	return newWorldIn(prometheus.NewRegistry(), cc, ups...)
}

func newWorldIn(reg prometheus.Registerer, cc *cache.HttpCacheConfig, ups ...*config.Upstream) *world {
	w := &world{}
	var err error
	w.pd, err = provider.NewInMemoryCache(provider.InMemoryCacheConfig{})
	vf.Assert(err == nil, "the provider is created")
	w.hc, err = cache.NewHttpCache(cc, w.pd)
	vf.Assert(err == nil, "the cache is created")
	w.srv, err = server.NewServer(&config.Configuration{Upstreams: ups, API: &config.API{}, Provider: &provider.ProviderBackendConfig{}},
		w.pd, w.hc, reg)
	vf.Assert(err == nil, "the server is created")
	middleware.VFSetOrigin(w.srv.VFTransport(), rtf(func(r *http.Request) (*http.Response, error) {
		if w.originOnly != nil {
			return w.originOnly(r)
		}
		w.n++
		w.last = r
		return w.origin(r)
	}))
	return w
}

// request is a request as the HTTP server passes it to the handler.
func request(method, path string, hdr ...string) *http.Request {
	h := http.Header{}
	for i := 0; i < len(hdr); i += 2 {
		h[hdr[i]] = append(h[hdr[i]], hdr[i+1])
	}
	r := &http.Request{Method: method, Host: "front", Proto: "HTTP/1.1", ProtoMajor: 1, ProtoMinor: 1,
		URL: &url.URL{Path: path}, RequestURI: path, Header: h, RemoteAddr: "192.0.2.9:1234", Body: http.NoBody}
	return r.WithContext(context.Background())
}

func response(r *http.Request, code int, body string, hdr ...string) *http.Response {
	h := http.Header{}
	for i := 0; i < len(hdr); i += 2 {
		h[hdr[i]] = append(h[hdr[i]], hdr[i+1])
	}
	cl := int64(len(body))
	var b io.ReadCloser = io.NopCloser(strings.NewReader(body))
	if r != nil && r.Method == "HEAD" || code == 304 {
		b = http.NoBody
	}
	return &http.Response{StatusCode: code, Proto: "HTTP/1.1", ProtoMajor: 1, ProtoMinor: 1,
		Header: h, Body: b, ContentLength: cl, Request: r}
}

// do sends a request to the proxy.
func (w *world) do(r *http.Request) *rec {
	a := &rec{h: http.Header{}}
	w.srv.ServeHTTP(a, r)
	if a.code == 0 {
		a.WriteHeader(200)
	}
	return a
}

func now() string { return vf.HTTPDate(time.Now().Unix()) }
