package proxy

import (
	"bufio"
	"context"
	"errors"
	"io"
	"net"
	"net/http"
	"strings"
	"sync"
	"time"

	"github.com/kacheio/kache/pkg/cache"
	"github.com/kacheio/kache/pkg/config"
	"github.com/kacheio/kache/pkg/provider"
	"github.com/kacheio/kache/pkg/server"
	"github.com/kacheio/kache/pkg/server/middleware"
	vf "github.com/kacheio/kache/zzvf/vf"
	"github.com/prometheus/client_golang/prometheus"
)

// memListener is a network listener in memory.
type memListener struct {
	conns chan net.Conn
	done  chan struct{}
	once  sync.Once
}

func newMemListener() *memListener {
	return &memListener{conns: make(chan net.Conn), done: make(chan struct{})}
}

func (l *memListener) Accept() (net.Conn, error) {
	select {
	case c := <-l.conns:
		return c, nil
	case <-l.done:
		return nil, net.ErrClosed
	}
}

func (l *memListener) Close() error {
	l.once.Do(func() { close(l.done) })
	return nil
}

type memAddr struct{}

func (memAddr) Network() string { return "tcp" }
func (memAddr) String() string  { return "192.0.2.1:80" }

func (l *memListener) Addr() net.Addr { return memAddr{} }

// named is a connection with an address.
type named struct{ net.Conn }

func (named) RemoteAddr() net.Addr { return clientAddr{} }

type clientAddr struct{}

func (clientAddr) Network() string { return "tcp" }
func (clientAddr) String() string  { return "192.0.2.9:1234" }

func (l *memListener) dial() (net.Conn, error) {
	a, b := net.Pipe()
	select {
	case l.conns <- named{b}:
		return a, nil
	case <-l.done:
		return nil, errors.New("connection refused")
	}
}

var (
	listened  []string
	listenErr error
)

func fakeNetListen(network, addr string) (net.Listener, error) {
	listened = append(listened, network+" "+addr)
	if listenErr != nil {
		return nil, listenErr
	}
	return newMemListener(), nil
}

// newListening is a proxy behind the real HTTP server.
func newListening(cc *cache.HttpCacheConfig) (*world, *memListener) {
	w := &world{}
	var err error
	w.pd, err = provider.NewInMemoryCache(provider.InMemoryCacheConfig{})
	vf.Assert(err == nil, "the provider is created")
	w.hc, err = cache.NewHttpCache(cc, w.pd)
	vf.Assert(err == nil, "the cache is created")
	w.srv, err = server.NewServer(&config.Configuration{Upstreams: config.Upstreams{up}, API: &config.API{}, Provider: &provider.ProviderBackendConfig{},
		Listeners: config.Listeners{"web": {Addr: "127.0.0.1:0"}}}, w.pd, w.hc, prometheus.NewRegistry())
	vf.Assert(err == nil, "the server is created")
	middleware.VFSetOrigin(w.srv.VFTransport(), rtf(func(r *http.Request) (*http.Response, error) {
		return w.originOnly(r)
	}))
	l := newMemListener()
	w.srv.VFSetListener("web", l)
	return w, l
}

// Every request on a connection gets one complete response, in order and framed
// so that its end can be told, as long as the origin answers within 30 s, else
// 503. Runs the real HTTP server on connections in memory.
//
// Bounds: two requests on one connection, GET, HEAD or POST with a symbolic
// body (declared or chunked); each answered after any time up to 40 s, the first
// (thorough: each, without a content type) with a body of up to two symbolic bytes, declared or not.
//
//vf:time=60 replace=net.Listen->fakeNetListen
func C28_Answer() {
	vf.RealCodec()
	w, l := newListening(&cache.HttpCacheConfig{Strict: true})
	ctx, stop := context.WithCancel(context.Background())
	w.srv.Start(ctx)
	var took time.Duration
	var text string
	var declared bool
	var got []byte
	var gotErr error
	w.originOnly = func(r *http.Request) (*http.Response, error) {
		if r.Body != nil {
			got, gotErr = io.ReadAll(r.Body)
		}
		select {
		case <-time.After(took):
		case <-r.Context().Done():
			return nil, r.Context().Err()
		}
		p := response(r, 200, text, "X-V", "v")
		if !vf.Thorough() {
			p.Header.Set("Content-Type", "text/plain")
		}
		if !declared {
			p.ContentLength = -1
		}
		return p, nil
	}
	c, err := l.dial()
	vf.Assert(err == nil, "the connection is accepted")
	br := bufio.NewReader(c)
	for i := 0; i < 2; i++ {
		took = time.Duration(vf.Int("took", 0, 40e9))
		text, declared = "x", true
		if i == 0 || vf.Thorough() {
			text = vf.String("answer", vf.Choose("len", 3), "\x00-\xff")
			declared = vf.Bool("declared")
		}
		got, gotErr = nil, nil
		method := "GET"
		head := "Host: front\r\nX-C: c\r\n"
		body, sent := "", ""
		switch vf.Choose("request", 4) {
		case 1:
			method = "HEAD"
		case 2:
			method = "POST"
			body = vf.String("body", 2, "\x00-\xff")
			head += "Content-Length: 2\r\n"
			sent = body
		case 3:
			method = "POST"
			body = vf.String("body", 2, "\x00-\xff")
			head += "Transfer-Encoding: chunked\r\n"
			sent = "2\r\n" + body + "\r\n0\r\n\r\n"
		}
		start := time.Now()
		go io.WriteString(c, method+" /p HTTP/1.1\r\n"+head+"\r\n"+sent)
		resp, err := http.ReadResponse(br, &http.Request{Method: method})
		vf.Assert(err == nil, "the request is answered")
		b, err := io.ReadAll(resp.Body)
		vf.Assert(err == nil, "the response is complete")
		vf.Assert(gotErr == nil && string(got) == body, "the origin gets the complete body")
		if resp.StatusCode == 503 {
			vf.Reach("timeout")
			vf.Assert(time.Since(start) == 30*time.Second && took >= 30*time.Second, "a request is given up after 30 s only")
		} else {
			vf.Reach("answered")
			vf.Assert(resp.StatusCode == 200 && resp.Header.Get("X-V") == "v", "the answer is the origin's")
			vf.Assert(time.Since(start) == took && took <= 30*time.Second, "the answer comes as soon as the origin's")
			if method == "HEAD" {
				vf.Assert(len(b) == 0, "there is no body")
			} else {
				vf.Assert(string(b) == text, "the body is the origin's")
			}
		}
		vf.Assert(!resp.Close, "the connection is kept")
	}
	c.Close()
	stop()
	w.srv.Await()
}

// A stopping service accepts no more connections, answers the requests under
// way if they are finished within five seconds and ends then.
//
// Bounds: one request under way for any time up to 8 s and an idle connection;
// stopped at any time up to 4 s after the request.
//
//vf:time=60 replace=net.Listen->fakeNetListen
func C28_Stop() {
	vf.RealCodec()
	w, l := newListening(&cache.HttpCacheConfig{Strict: true})
	ctx, stop := context.WithCancel(context.Background())
	w.srv.Start(ctx)
	took := time.Duration(vf.Int("took", 0, 8e9))
	when := time.Duration(vf.Int("when", 0, 4e9))
	vf.Assume(took != when && took != when+5*time.Second)
	asked := 0
	w.originOnly = func(r *http.Request) (*http.Response, error) {
		asked++
		select {
		case <-time.After(took):
		case <-r.Context().Done():
			return nil, r.Context().Err()
		}
		return response(r, 200, "fine"), nil
	}
	idle, err := l.dial()
	vf.Assert(err == nil, "the connection is accepted")
	old := took
	took = 0
	go io.WriteString(idle, "GET /p HTTP/1.1\r\nHost: front\r\n\r\n")
	ibr := bufio.NewReader(idle)
	resp, err := http.ReadResponse(ibr, nil)
	vf.Assert(err == nil && resp.StatusCode == 200, "the first request is answered")
	io.Copy(io.Discard, resp.Body)
	took = old
	c, err := l.dial()
	vf.Assert(err == nil, "the connection is accepted")
	begun := time.Now()
	go io.WriteString(c, "GET /q HTTP/1.1\r\nHost: front\r\n\r\n")
	type result struct {
		resp *http.Response
		body []byte
		err  error
		at   time.Duration
	}
	res := make(chan result, 1)
	go func() {
		var r result
		r.resp, r.err = http.ReadResponse(bufio.NewReader(c), nil)
		if r.err == nil {
			r.body, r.err = io.ReadAll(r.resp.Body)
		}
		r.at = time.Since(begun)
		res <- r
	}()
	var ended time.Duration
	end := make(chan bool)
	go func() {
		w.srv.Await()
		ended = time.Since(begun)
		close(end)
	}()
	vf.Wait()
	vf.Assert(asked == 2, "the origin is asked")
	vf.Advance(when)
	stop()
	vf.Wait()
	_, err = l.dial()
	vf.Assert(err != nil, "no more connections are accepted")
	<-end
	r := <-res
	if took < when+5*time.Second {
		vf.Reach("finished")
		vf.Assert(r.err == nil, "a request under way is answered")
		vf.Assert(r.resp.StatusCode == 200 && string(r.body) == "fine", "a request under way is answered by the origin")
		vf.Assert(r.at == took, "a request under way is answered at once")
		vf.Assert(ended >= when && ended >= took, "the service ends after the requests under way")
		vf.Assert(took < when || ended <= took+time.Second, "the service ends once the requests under way are answered")
	} else {
		vf.Reach("given up")
		vf.Assert(r.err != nil, "a request that takes longer is given up")
		vf.Assert(ended == when+5*time.Second, "the service ends after 5 s")
	}
	_, err = ibr.ReadByte()
	vf.Assert(err != nil, "idle connections are closed")
	vf.Assert(asked == 2, "nothing else is sent to the origin")
	w.srv.Shutdown()
}

// It does not matter in which pieces a request arrives.
//
// Bounds: a GET, HEAD or POST request (declared or chunked body), followed by
// another one, cut at any one byte; the rest comes any time up to 900 ms later,
// or up to 20 s if the header is complete.
//
//vf:time=60 replace=net.Listen->fakeNetListen
func C28_Pieces() {
	vf.RealCodec()
	w, l := newListening(&cache.HttpCacheConfig{Strict: true})
	ctx, stop := context.WithCancel(context.Background())
	w.srv.Start(ctx)
	var paths []string
	w.originOnly = func(r *http.Request) (*http.Response, error) {
		var b []byte
		if r.Body != nil {
			var err error
			b, err = io.ReadAll(r.Body)
			vf.Assert(err == nil, "the body is complete")
		}
		paths = append(paths, r.Method+" "+r.URL.Path+" "+r.Header.Get("X-C")+" "+string(b))
		return response(r, 200, "fine"), nil
	}
	msgs := [...][3]string{
		{"GET", "GET /p HTTP/1.1\r\nHost: f\r\nX-C: c\r\n\r\n", "GET /p c "},
		{"HEAD", "HEAD /p HTTP/1.1\r\nHost: f\r\nX-C: c\r\n\r\n", "HEAD /p c "},
		{"POST", "POST /p HTTP/1.1\r\nHost: f\r\nX-C: c\r\nContent-Length: 3\r\n\r\nabc", "POST /p c abc"},
		{"POST", "POST /p HTTP/1.1\r\nHost: f\r\nX-C: c\r\nTransfer-Encoding: chunked\r\n\r\n1\r\na\r\n2\r\nbc\r\n0\r\n\r\n", "POST /p c abc"},
	}
	m := msgs[vf.Choose("request", len(msgs))]
	at := vf.Choose("at", len(m[1]))
	limit := int64(900e6)
	if at >= strings.Index(m[1], "\r\n\r\n")+4 {
		limit = 20e9
	}
	pause := time.Duration(vf.Int("pause", 0, limit))
	c, err := l.dial()
	vf.Assert(err == nil, "the connection is accepted")
	br := bufio.NewReader(c)
	go func() {
		io.WriteString(c, m[1][:at])
		time.Sleep(pause)
		io.WriteString(c, m[1][at:])
		io.WriteString(c, "GET /q HTTP/1.1\r\nHost: f\r\n\r\n")
	}()
	for _, method := range [...]string{m[0], "GET"} {
		resp, err := http.ReadResponse(br, &http.Request{Method: method})
		vf.Assert(err == nil && resp.StatusCode == 200, "the request is answered")
		b, err := io.ReadAll(resp.Body)
		vf.Assert(err == nil && (string(b) == "fine" || method == "HEAD"), "the answer is complete")
	}
	vf.Assert(len(paths) == 2, "each request is sent once")
	vf.Assert(paths[0] == m[2] && paths[1] == "GET /q  ", "the requests are complete")
	c.Close()
	stop()
	w.srv.Await()
	vf.Reach("done")
}

// A response that breaks off never looks complete to the client, and the next
// one is not affected.
//
// Bounds: a body of five bytes that breaks off after any number of them or
// fails at once, declared or not; the next request on the same connection or
// another one.
//
//vf:time=60 replace=net.Listen->fakeNetListen
func C28_Broken() {
	vf.RealCodec()
	w, l := newListening(&cache.HttpCacheConfig{Strict: vf.Bool("strict")})
	ctx, stop := context.WithCancel(context.Background())
	w.srv.Start(ctx)
	k := vf.Choose("bytes", 6)
	known := vf.Bool("known")
	n := 0
	w.originOnly = func(r *http.Request) (*http.Response, error) {
		n++
		p := response(r, 200, "hello", "Cache-Control", "max-age=10")
		if n == 1 {
			p.Body = &broken{strings.NewReader("hello"[:k]), errors.New("connection reset")}
			if !known {
				p.ContentLength = -1
			}
		}
		return p, nil
	}
	c, err := l.dial()
	vf.Assert(err == nil, "the connection is accepted")
	go io.WriteString(c, "GET /p HTTP/1.1\r\nHost: f\r\n\r\n")
	br := bufio.NewReader(c)
	resp, err := http.ReadResponse(br, nil)
	if err == nil {
		_, err = io.ReadAll(resp.Body)
		vf.Assert(err != nil || resp.StatusCode >= 500, "a broken response does not look complete")
	}
	c.Close()
	c, err = l.dial()
	vf.Assert(err == nil, "the next connection is accepted")
	go io.WriteString(c, "GET /p HTTP/1.1\r\nHost: f\r\n\r\n")
	resp, err = http.ReadResponse(bufio.NewReader(c), nil)
	vf.Assert(err == nil && resp.StatusCode == 200, "the next request is answered")
	b, err := io.ReadAll(resp.Body)
	vf.Assert(err == nil && string(b) == "hello", "the next answer is complete")
	c.Close()
	stop()
	w.srv.Await()
	vf.Reach("done")
}

// A client that closes its connection has its origin contact cancelled at once
// and is no harm to other clients.
//
// Bounds: the client leaves at any time before the answer, which takes any time
// up to 14 s (so that it may be waited for twice); another client asks for the same at any time before it.
//
//vf:time=60 replace=net.Listen->fakeNetListen
func C28_Gone() {
	vf.RealCodec()
	w, l := newListening(&cache.HttpCacheConfig{Strict: true})
	ctx, stop := context.WithCancel(context.Background())
	w.srv.Start(ctx)
	took := time.Duration(vf.Int("took", 2, 14e9))
	leave := time.Duration(vf.Int("leave", 1, 14e9))
	vf.Assume(leave < took)
	later := time.Duration(vf.Int("later", 1, 14e9))
	vf.Assume(later < took && later != leave)
	begun := time.Now()
	n, cancelled := 0, false
	var canceledAt time.Duration
	w.originOnly = func(r *http.Request) (*http.Response, error) {
		n++
		select {
		case <-time.After(took):
		case <-r.Context().Done():
			cancelled, canceledAt = true, time.Since(begun)
			return nil, r.Context().Err()
		}
		return response(r, 200, "fine", "Cache-Control", "max-age=100"), nil
	}
	c, err := l.dial()
	vf.Assert(err == nil, "the connection is accepted")
	go io.WriteString(c, "GET /p HTTP/1.1\r\nHost: f\r\n\r\n")
	go func() {
		time.Sleep(leave)
		c.Close()
	}()
	vf.Advance(later)
	d, err := l.dial()
	vf.Assert(err == nil, "the other connection is accepted")
	go io.WriteString(d, "GET /p HTTP/1.1\r\nHost: f\r\n\r\n")
	resp, err := http.ReadResponse(bufio.NewReader(d), nil)
	vf.Assert(err == nil && resp.StatusCode == 200, "the other client is answered")
	b, err := io.ReadAll(resp.Body)
	vf.Assert(err == nil && string(b) == "fine", "the other client's answer is complete")
	vf.Assert(n == 2, "the other client has its own contact")
	vf.Assert(cancelled && canceledAt == leave, "the contact of a client that left is cancelled at once")
	d.Close()
	stop()
	w.srv.Await()
	vf.Reach("done")
}

// Every configured listener is opened; if one cannot be, the service does not
// start. All of them serve and all are closed when the service stops.
//
// Bounds: up to two listeners, any of them failing.
//
//vf:time=60 noreplay replace=net.Listen->fakeNetListen
func C28_Start() {
	listened, listenErr = nil, nil
	cfg := config.Listeners{}
	addrs := [...]string{"h:80", ":443"}
	n := vf.Choose("n", 3)
	for _, a := range addrs[:n] {
		cfg[a] = &config.Listener{Addr: a}
	}
	if vf.Bool("fails") {
		listenErr = errors.New("address already in use")
	}
	pd, err := provider.NewInMemoryCache(provider.InMemoryCacheConfig{})
	vf.Assert(err == nil, "the provider is created")
	hc, err := cache.NewHttpCache(&cache.HttpCacheConfig{}, pd)
	vf.Assert(err == nil, "the cache is created")
	srv, err := server.NewServer(&config.Configuration{Upstreams: config.Upstreams{up}, API: &config.API{}, Provider: &provider.ProviderBackendConfig{},
		Listeners: cfg}, pd, hc, prometheus.NewRegistry())
	if listenErr != nil && n > 0 {
		vf.Assert(err != nil && srv == nil, "an address in use is reported")
		vf.Reach("failed")
		return
	}
	vf.Assert(err == nil && len(listened) == n, "every listener is opened")
	for _, a := range addrs[:n] {
		found := 0
		for _, x := range listened {
			if x == "tcp "+a {
				found++
			}
		}
		vf.Assert(found == 1, "each listener is opened at its address")
	}
	ctx, stop := context.WithCancel(context.Background())
	srv.Start(ctx)
	vf.Wait()
	var ls []*memListener
	for _, a := range addrs[:n] {
		l := srv.VFListener(a).(*memListener)
		c, err := l.dial()
		vf.Assert(err == nil, "each listener accepts connections")
		c.Close()
		ls = append(ls, l)
	}
	vf.Wait()
	begun := time.Now()
	stop()
	srv.Await()
	vf.Assert(time.Since(begun) <= time.Second, "an idle service stops at once")
	for _, l := range ls {
		_, err := l.dial()
		vf.Assert(err != nil, "each listener is closed")
	}
	srv.Shutdown()
	vf.Reach("done")
}
