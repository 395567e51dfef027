package proxy

import (
	"bufio"
	"bytes"
	"context"
	"errors"
	"io"
	"net"
	"net/http"
	"strconv"
	"strings"
	"sync"
	"time"

	"github.com/kacheio/kache/pkg/cache"
	"github.com/kacheio/kache/pkg/config"
	"github.com/kacheio/kache/pkg/provider"
	"github.com/kacheio/kache/pkg/server"
	"github.com/kacheio/kache/pkg/server/middleware"
	vf "github.com/kacheio/kache/zzvf/vf"
	"github.com/prometheus/client_golang/prometheus"
)

// newDialing is a proxy whose connections to origins lead to f.
func newDialing(cc *cache.HttpCacheConfig, us config.Upstreams, f func(addr string, c net.Conn) error) *world {
	w := &world{}
	var err error
	w.pd, err = provider.NewInMemoryCache(provider.InMemoryCacheConfig{})
	vf.Assert(err == nil, "the provider is created")
	w.hc, err = cache.NewHttpCache(cc, w.pd)
	vf.Assert(err == nil, "the cache is created")
	w.srv, err = server.NewServer(&config.Configuration{Upstreams: us, API: &config.API{}, Provider: &provider.ProviderBackendConfig{}}, w.pd, w.hc, prometheus.NewRegistry())
	vf.Assert(err == nil, "the server is created")
	middleware.VFSetDial(w.srv.VFTransport(), func(ctx context.Context, network, addr string) (net.Conn, error) {
		a, b := net.Pipe()
		if err := f(network+" "+addr, b); err != nil {
			return nil, err
		}
		return named{a}, nil
	})
	return w
}

// The origin's answer reaches the client however it is framed, in whatever
// pieces it comes and however long it takes below 30 s; the connection is used
// again for the next request if it can be.
//
// Bounds: ten framings of a short body with two symbolic bytes or none, cut at
// any one byte, the rest coming any time up to 29 s after the request.
//
//vf:time=60
func C32_Answer() {
	vf.RealCodec()
	dials, asked := 0, 0
	text := vf.String("answer", 2, "\x00-\xff")
	const head = "HTTP/1.1 200 OK\r\nContent-Type: text/plain\r\nCache-Control: no-store\r\nX-V: v\r\n"
	kinds := [...]struct {
		text, body string
		method     string
		code       int
		keep       bool
	}{
		{head + "Content-Length: 2\r\n\r\n" + text, text, "GET", 200, true},
		{head + "Transfer-Encoding: chunked\r\n\r\n1\r\n" + text[:1] + "\r\n1\r\n" + text[1:] + "\r\n0\r\n\r\n", text, "GET", 200, true},
		{head + "Transfer-Encoding: chunked\r\n\r\n2;x=y\r\n" + text + "\r\n0\r\nX-T: t\r\n\r\n", text, "GET", 200, true},
		{head + "\r\n" + text, text, "GET", 200, false},
		{head + "Connection: close\r\nContent-Length: 2\r\n\r\n" + text, text, "GET", 200, false},
		{"HTTP/1.0 200 OK\r\nContent-Type: text/plain\r\nX-V: v\r\n\r\n" + text, text, "GET", 200, false},
		{"HTTP/1.1 103 Early Hints\r\nLink: </a>\r\n\r\n" + head + "Content-Length: 2\r\n\r\n" + text, text, "GET", 200, true},
		{head + "Content-Length: 2\r\n\r\n", "", "HEAD", 200, true},
		{"HTTP/1.1 204 No Content\r\nX-V: v\r\n\r\n", "", "GET", 204, true},
		{"HTTP/1.1 404 Not Found\r\nX-V: v\r\nContent-Type: text/plain\r\nContent-Length: 0\r\n\r\n", "", "GET", 404, true},
	}
	k := kinds[vf.Choose("framing", len(kinds))]
	at := vf.Choose("at", len(k.text))
	pause := time.Duration(vf.Int("pause", 0, 29e9))
	w := newDialing(&cache.HttpCacheConfig{Strict: true}, config.Upstreams{up}, func(addr string, c net.Conn) error {
		dials++
		vf.Assert(addr == "tcp up:80", "the connection leads to the upstream")
		go func() {
			br := bufio.NewReader(c)
			for {
				_, err := http.ReadRequest(br)
				if err != nil {
					return
				}
				asked++
				io.WriteString(c, k.text[:at])
				time.Sleep(pause)
				io.WriteString(c, k.text[at:])
				if !k.keep {
					c.Close()
				}
			}
		}()
		return nil
	})
	for i := 0; i < 2; i++ {
		begun := time.Now()
		a := w.do(request(k.method, "/p"))
		vf.Assert(a.code == k.code && a.h.Get("X-V") == "v", "the answer is the origin's")
		vf.Assert(string(a.body) == k.body, "the body is the origin's")
		vf.Assert(time.Since(begun) == pause, "the answer comes as soon as the origin's")
		vf.Wait()
	}
	vf.Assert(asked == 2, "each request is sent once")
	if k.keep {
		vf.Assert(dials == 1, "the connection is reused")
		vf.Reach("reused")
	} else {
		vf.Assert(dials == 2, "a closed connection is not reused")
		vf.Reach("closed")
	}
}

var addrs = [...]struct{ addr, dial, host string }{
	{"http://up1:8000", "tcp up1:8000", "up1:8000"},
	{"http://up1", "tcp up1:80", "up1"},
	{"http://192.0.2.1", "tcp 192.0.2.1:80", "192.0.2.1"},
	{"http://[2001:db8::1]:81", "tcp [2001:db8::1]:81", "[2001:db8::1]:81"},
}

// Each request is written as one complete message to a connection to the
// upstream's address.
//
// Bounds: two requests one after the other, the first (thorough: each) GET, HEAD, or POST with a body of
// up to two symbolic bytes, declared or not; symbolic bytes in path, query and
// a header; four kinds of addresses.
//
//vf:time=60
func C32_Request() {
	vf.RealCodec()
	u := addrs[vf.Choose("address", len(addrs))]
	var raw bytes.Buffer
	var got []*http.Request
	var bodies []string
	dials := 0
	w := newDialing(&cache.HttpCacheConfig{Strict: true}, config.Upstreams{{Name: "a", Addr: u.addr, Path: "/"}}, func(addr string, c net.Conn) error {
		dials++
		vf.Assert(addr == u.dial, "the connection leads to the upstream")
		go func() {
			br := bufio.NewReader(io.TeeReader(c, &raw))
			for {
				r, err := http.ReadRequest(br)
				if err != nil {
					vf.Assert(errors.Is(err, io.EOF), "the request is well-formed")
					return
				}
				b, err := io.ReadAll(r.Body)
				vf.Assert(err == nil, "the body is complete")
				vf.Assert(br.Buffered() == 0, "nothing follows the request")
				got = append(got, r)
				bodies = append(bodies, string(b))
				io.WriteString(c, "HTTP/1.1 200 OK\r\nContent-Length: 0\r\nCache-Control: no-store\r\n\r\n")
			}
		}()
		return nil
	})
	for i := 0; i < 2; i++ {
		method, p, q, v := "GET", "p", "q", "v"
		if i == 0 || vf.Thorough() {
			method = [...]string{"GET", "HEAD", "POST"}[vf.Choose("method", 3)]
			p = vf.String("path", 1, "a-z0-9~_")
			q = vf.String("query", 1, "a-z=&+;")
			v = vf.String("header", 2, "!-~")
		}
		r := request(method, "/"+p, "X-C", v, "Accept-Encoding", "br", "Connection", "X-Hop", "X-Hop", "1")
		r.URL.RawQuery = q
		r.RequestURI = "/" + p + "?" + q
		text := ""
		if method == "POST" {
			text = vf.String("body", vf.Choose("len", 3), "\x00-\xff")
			r.Body = io.NopCloser(strings.NewReader(text))
			r.ContentLength = int64(len(text))
			if text == "" {
				r.Body = http.NoBody
			}
			if vf.Bool("chunked") {
				r.ContentLength = -1
				r.TransferEncoding = []string{"chunked"}
				r.Body = io.NopCloser(strings.NewReader(text))
			}
		}
		a := w.do(r)
		vf.Assert(a.code == 200, "the request is answered")
		vf.Assert(len(got) == i+1, "each request is sent once")
		g := got[i]
		vf.Assert(g.Method == method && g.RequestURI == "/"+p+"?"+q && g.Proto == "HTTP/1.1", "the request line is the client's")
		vf.Assert(g.Host == u.host, "the host is the upstream's")
		vf.Assert(g.Header.Get("X-C") == v && g.Header.Get("Accept-Encoding") == "br", "headers are passed on")
		vf.Assert(g.Header.Get("X-Hop") == "", "headers for one connection are not")
		vf.Assert(bodies[i] == text, "the body is the client's")
	}
	vf.Assert(dials == 1, "the connection is reused")
	vf.Reach("done")
}

// A connection that fails harms only the request it was used for, if at all.
//
// Bounds: the connection is refused, or closed after any number of bytes of the
// request's answer or before it, at once or while it is idle; GET or POST; then
// another request.
//
//vf:time=60
func C32_Broken() {
	vf.RealCodec()
	const answer = "HTTP/1.1 200 OK\r\nContent-Length: 4\r\nCache-Control: max-age=100\r\n\r\nfine"
	kind := vf.Choose("kind", 3)
	method := [...]string{"GET", "POST"}[vf.Choose("method", 2)]
	at := vf.Choose("at", len(answer))
	dials := 0
	posts := 0
	w := newDialing(&cache.HttpCacheConfig{Strict: vf.Bool("strict")}, config.Upstreams{up}, func(addr string, c net.Conn) error {
		dials++
		n := dials
		if n == 1 && kind == 0 {
			return &net.OpError{Op: "dial", Net: "tcp", Err: errors.New("connection refused")}
		}
		go func() {
			br := bufio.NewReader(c)
			for {
				r, err := http.ReadRequest(br)
				if err != nil {
					return
				}
				io.Copy(io.Discard, r.Body)
				if r.Method == "POST" {
					posts++
				}
				if n == 1 && kind == 1 {
					io.WriteString(c, answer[:at])
					c.Close()
					return
				}
				io.WriteString(c, answer)
				if n == 1 { // idle
					c.Close()
					return
				}
			}
		}()
		return nil
	})
	req := func(path string) (*rec, bool) {
		r := request(method, path)
		if method == "POST" {
			r.Body = io.NopCloser(strings.NewReader("abc"))
			r.ContentLength = 3
		}
		return w.ask(r)
	}
	if kind == 2 {
		a, complete := req("/first")
		vf.Assert(complete && a.code == 200 && string(a.body) == "fine", "the first request is answered")
		vf.Wait()
		posts = 0
		vf.Reach("idle")
	} else {
		a, complete := req("/p")
		switch {
		case kind == 0:
			vf.Assert(complete && a.code == 503, "a refused connection is reported")
			vf.Assert(dials == 1, "it is tried once")
			vf.Reach("refused")
		case !complete:
			vf.Reach("cut")
		default:
			vf.Assert(a.code >= 500, "a broken answer is no success")
			vf.Reach("reported")
		}
		vf.Assert(posts <= 1, "a POST request is not sent twice")
		posts = 0
	}
	a, complete := req("/p")
	vf.Assert(complete && a.code == 200 && string(a.body) == "fine", "the next request is answered")
	vf.Assert(dials == 2, "it has a new connection")
	if method == "POST" {
		vf.Assert(posts == 1, "it is sent once")
	}
}

// Requests do not wait for each other's connections.
//
// Bounds: four requests for different paths or methods within any time, each
// answered after any time up to 29 s.
//
//vf:time=60
func C32_Parallel() {
	vf.RealCodec()
	var tooks [4]time.Duration
	var mu sync.Mutex
	w := newDialing(&cache.HttpCacheConfig{Strict: true}, config.Upstreams{up}, func(addr string, c net.Conn) error {
		go func() {
			br := bufio.NewReader(c)
			for {
				r, err := http.ReadRequest(br)
				if err != nil {
					return
				}
				time.Sleep(tooks[r.URL.Path[1]-'0'])
				io.WriteString(c, "HTTP/1.1 200 OK\r\nContent-Length: 1\r\nCache-Control: no-store\r\n\r\n"+r.URL.Path[1:])
			}
		}()
		return nil
	})
	n := 3
	if vf.Thorough() {
		n = 4
	}
	for i := 0; i < n; i++ {
		tooks[i] = time.Duration(vf.Int("took", 0, 29e9))
	}
	var wg sync.WaitGroup
	for i := 0; i < n; i++ {
		i := i
		wg.Add(1)
		go func() {
			defer wg.Done()
			begun := time.Now()
			method := "GET"
			if i == 1 {
				method = "OPTIONS"
			}
			p := string(rune('0' + i))
			a := w.do(request(method, "/"+p))
			mu.Lock()
			defer mu.Unlock()
			vf.Assert(a.code == 200 && string(a.body) == p, "each request gets its own answer")
			vf.Assert(time.Since(begun) == tooks[i], "no request waits for another")
		}()
	}
	wg.Wait()
	vf.Reach("done")
}

// A client that leaves has its connection to the origin closed at once.
//
// Bounds: the client leaves at any time before the answer or in the middle of
// it.
//
//vf:time=60
func C32_Leave() {
	vf.RealCodec()
	const answer = "HTTP/1.1 200 OK\r\nContent-Length: 4\r\nCache-Control: max-age=100\r\n\r\nfine"
	at := vf.Choose("at", len(answer))
	leave := time.Duration(vf.Int("leave", 1, 29e9))
	var closed time.Duration
	begun := time.Now()
	w := newDialing(&cache.HttpCacheConfig{Strict: true}, config.Upstreams{up}, func(addr string, c net.Conn) error {
		go func() {
			br := bufio.NewReader(c)
			http.ReadRequest(br)
			io.WriteString(c, answer[:at])
			br.ReadByte()
			closed = time.Since(begun)
		}()
		return nil
	})
	ctx, cancel := context.WithCancel(context.Background())
	go func() {
		time.Sleep(leave)
		cancel()
	}()
	func() {
		defer func() { recover() }()
		w.do(request("GET", "/p").WithContext(ctx))
	}()
	vf.Wait()
	vf.Assert(closed == leave, "the connection is closed at once")
	vf.Assert(w.pd.Size() == 0, "nothing is stored")
	vf.Reach("done")
}

var dialTime time.Duration
var dialed func(addr string, c net.Conn)

// fakeDial connects within dialTime unless the dialer gives up before.
func fakeDial(d *net.Dialer, ctx context.Context, network, addr string) (net.Conn, error) {
	timeout := errors.New("i/o timeout")
	if d.Timeout > 0 {
		var cancel context.CancelFunc
		ctx, cancel = context.WithTimeout(ctx, d.Timeout)
		defer cancel()
	}
	if !d.Deadline.IsZero() {
		var cancel context.CancelFunc
		ctx, cancel = context.WithDeadline(ctx, d.Deadline)
		defer cancel()
	}
	select {
	case <-time.After(dialTime):
	case <-ctx.Done():
		return nil, &net.OpError{Op: "dial", Net: network, Err: timeout}
	}
	a, b := net.Pipe()
	dialed(network+" "+addr, b)
	return named{a}, nil
}

// Connecting may take a while, too; a request is given up after 30 s in all.
//
// Bounds: connecting takes any time up to 40 s, answering any time up to 40 s.
//
//vf:time=60 noreplay replace=(*net.Dialer).DialContext->fakeDial
func C32_Dial() {
	vf.RealCodec()
	dialTime = time.Duration(vf.Int("dial", 0, 40e9))
	took := time.Duration(vf.Int("took", 0, 40e9))
	n := 0
	dialed = func(addr string, c net.Conn) {
		n++
		vf.Assert(addr == "tcp up:80", "the connection leads to the upstream")
		go func() {
			br := bufio.NewReader(c)
			for {
				if _, err := http.ReadRequest(br); err != nil {
					return
				}
				time.Sleep(took)
				io.WriteString(c, "HTTP/1.1 200 OK\r\nContent-Length: 2\r\n\r\nok")
			}
		}()
	}
	w := &world{}
	var err error
	w.pd, err = provider.NewInMemoryCache(provider.InMemoryCacheConfig{})
	vf.Assert(err == nil, "the provider is created")
	w.hc, err = cache.NewHttpCache(&cache.HttpCacheConfig{Strict: true}, w.pd)
	vf.Assert(err == nil, "the cache is created")
	w.srv, err = server.NewServer(&config.Configuration{Upstreams: config.Upstreams{up}, API: &config.API{}, Provider: &provider.ProviderBackendConfig{}}, w.pd, w.hc, prometheus.NewRegistry())
	vf.Assert(err == nil, "the server is created")
	vf.Assume(dialTime+took != 30*time.Second && dialTime != 30*time.Second)
	begun := time.Now()
	a := w.do(request("GET", "/p"))
	if dialTime+took < 30*time.Second {
		vf.Assert(a.code == 200 && string(a.body) == "ok", "the answer is the origin's")
		vf.Assert(time.Since(begun) == dialTime+took, "the answer comes as soon as the origin's")
		vf.Reach("answered")
	} else {
		vf.Assert(a.code == 503 || a.code == 504, "a request that takes too long is given up")
		vf.Assert(time.Since(begun) == 30*time.Second, "it is given up after 30 s")
		vf.Reach("timeout")
	}
}

// Long headers and bodies pass.
//
// Bounds: a header value of 60000 bytes and a body of 70000 bytes, in the
// request, the answer or both, declared or chunked, and one symbolic byte in each.
//
//vf:time=60 steps=60000000
func C32_Long() {
	vf.RealCodec()
	hv, bv := "v", "b"
	var got *http.Request
	var gotBody string
	w := newDialing(&cache.HttpCacheConfig{Strict: true}, config.Upstreams{up}, func(addr string, c net.Conn) error {
		go func() {
			br := bufio.NewReader(c)
			for {
				r, err := http.ReadRequest(br)
				if err != nil {
					return
				}
				b, err := io.ReadAll(r.Body)
				vf.Assert(err == nil, "the body is complete")
				got, gotBody = r, string(b)
				p := response(r, 200, bv, "X-V", hv, "Cache-Control", "max-age=10", "Content-Type", "text/plain")
				if vf.Bool("unknown") {
					p.ContentLength = -1
					p.TransferEncoding = []string{"chunked"}
				}
				p.Write(c)
			}
		}()
		return nil
	})
	long := strings.Repeat("0123456789", 6000) + vf.String("h", 1, "!-~")
	body := strings.Repeat("0123456789", 7000) + vf.String("b", 1, "\x00-\xff")
	r := request("GET", "/p")
	sent := ""
	if vf.Bool("request") {
		r = request("POST", "/p", "X-C", long)
		r.Body = io.NopCloser(strings.NewReader(body))
		r.ContentLength = int64(len(body))
		if vf.Bool("chunked") {
			r.ContentLength = -1
		}
		sent = body
	}
	if vf.Bool("answer") {
		hv, bv = long, body
	}
	a := w.do(r)
	vf.Assert(a.code == 200 && a.h.Get("X-V") == hv && string(a.body) == bv, "the answer is the origin's")
	vf.Assert(gotBody == sent && (sent == "" || got.Header.Get("X-C") == long), "the request is the client's")
	if r.Method == "GET" {
		got = nil
		a = w.do(request("GET", "/p"))
		vf.Assert(a.code == 200 && a.h.Get("X-V") == hv && string(a.body) == bv, "the stored answer is the origin's")
		vf.Reach("stored")
	}
	vf.Reach("done")
}

// The origin is asked for nothing the client did not ask for, and the coding of
// its answer is the client's concern.
//
// Bounds: a client that accepts any, one of two or no coding; a GET or HEAD
// request; an answer with a body of up to two symbolic bytes that is coded,
// or said to be, in one of three ways, declared or chunked, storable or not; a second request.
//
//vf:time=60
func C32_Coding() {
	vf.RealCodec()
	n := 0
	accept := [...]string{"", "gzip", "identity;q=0"}[vf.Choose("accept", 3)]
	coding := [...]string{"", "gzip", "br"}[vf.Choose("coding", 3)]
	text := vf.String("body", vf.Choose("len", 3), "\x00-\xff")
	cc := [...]string{"no-store", "max-age=10"}[vf.Choose("storable", 2)]
	chunked := vf.Bool("chunked")
	method := [...]string{"GET", "HEAD"}[vf.Choose("method", 2)]
	w := newDialing(&cache.HttpCacheConfig{Strict: true}, config.Upstreams{up}, func(addr string, c net.Conn) error {
		go func() {
			br := bufio.NewReader(c)
			for {
				r, err := http.ReadRequest(br)
				if err != nil {
					return
				}
				n++
				for k, v := range r.Header {
					switch k {
					case "Accept-Encoding":
						vf.Assert(accept != "" && len(v) == 1 && v[0] == accept, "no other coding is asked for")
					case "X-C":
						vf.Assert(v[0] == "v", "headers are passed on")
					default:
						vf.Assert(k == "User-Agent" || k == "X-Forwarded-For", "the origin gets no other headers")
					}
				}
				p := response(r, 200, text, "Etag", "\"e\"", "Cache-Control", cc)
				if coding != "" {
					p.Header.Set("Content-Encoding", coding)
				}
				if chunked {
					p.ContentLength = -1
					p.TransferEncoding = []string{"chunked"}
				}
				p.Write(c)
			}
		}()
		return nil
	})
	for i := 0; i < 2; i++ {
		if i == 1 {
			method = "GET"
		}
		r := request(method, "/p", "X-C", "v")
		if accept != "" {
			r.Header.Set("Accept-Encoding", accept)
		}
		a := w.do(r)
		vf.Assert(a.code == 200 && a.h.Get("Content-Encoding") == coding, "the answer has the origin's coding")
		vf.Assert(method == "HEAD" || string(a.body) == text, "and its body")
		vf.Assert(len(a.h["Content-Length"]) == 0 || chunked == false && a.h.Get("Content-Length") == strconv.Itoa(len(text)), "and its length")
	}
	if n == 1 {
		vf.Reach("stored")
	} else {
		vf.Reach("asked")
	}
}
