package proxy

import (
	"bufio"
	"context"
	"errors"
	"fmt"
	"io"
	"net"
	"net/http"
	"net/url"
	"strconv"
	"strings"
	"syscall"
	"time"

	"github.com/kacheio/kache/pkg/cache"
	"github.com/kacheio/kache/pkg/config"
	vf "github.com/kacheio/kache/zzvf/vf"
)

var up = &config.Upstream{Name: "a", Addr: "http://up:80", Path: "/"}

// timeout is a network error that is a timeout or not.
type timeout bool

func (t timeout) Error() string   { return "slow" }
func (t timeout) Timeout() bool   { return bool(t) }
func (t timeout) Temporary() bool { return true }

// failure is any error of the transport and the status it is answered with.
func failure() (error, int) {
	var err error
	code := 500
	switch vf.Choose("error", 9) {
	case 0:
		err = errors.New("strange")
	case 1:
		err, code = io.EOF, 502
	case 2:
		err, code = timeout(true), 504
	case 3:
		err = timeout(false)
	case 4:
		err, code = &net.OpError{Op: "dial", Net: "tcp", Err: syscall.ECONNREFUSED}, 503
	case 5:
		err, code = &net.OpError{Op: "dial", Net: "tcp", Err: &net.DNSError{Err: "no such host", Name: "up", IsNotFound: true}}, 503
	case 6:
		err, code = &net.OpError{Op: "read", Net: "tcp", Err: timeout(true)}, 503
	case 7:
		err = io.ErrUnexpectedEOF
	case 8:
		err, code = &net.DNSError{Err: "i/o timeout", Name: "up", IsTimeout: true}, 504
	}
	switch vf.Choose("wrap", 3) {
	case 1:
		err = fmt.Errorf("while asking: %w", err)
	case 2:
		err = &url.Error{Op: "Get", URL: "http://up/", Err: err}
	}
	return err, code
}

// A failing origin is answered with the status for the kind of failure; it
// leaves stored responses alone and nothing else remembers it.
//
// Bounds: nine errors, bare or wrapped in two ways; three methods; strict or
// not; a stale response stored before or none.
//
//vf:time=60
func C23_Failure() {
	strict := vf.Bool("strict")
	w := newWorld(&cache.HttpCacheConfig{Strict: strict, DefaultTTL: "1000s"}, up)
	method := [...]string{"GET", "HEAD", "POST"}[vf.Choose("method", 3)]
	answer := func(r *http.Request) (*http.Response, error) {
		if w.last.Header.Get("If-None-Match") != "" {
			return response(r, 304, "", "Etag", "e", "Cache-Control", "max-age=10"), nil
		}
		return response(r, 200, "fine", "Etag", "e", "Cache-Control", "max-age=10"), nil
	}
	w.origin = answer
	before := vf.Bool("before")
	if before {
		vf.Assert(w.do(request("GET", "/p")).code == 200, "the origin answers")
		vf.Advance(11 * time.Second)
	}
	err, code := failure()
	w.n = 0
	w.origin = func(r *http.Request) (*http.Response, error) { return nil, err }
	a := w.do(request(method, "/p"))
	if before && !strict && method != "POST" {
		vf.Assert(w.n == 0 && a.code == 200, "a stored response is used")
		vf.Reach("stored")
	} else {
		vf.Assert(w.n == 1, "the origin is asked once")
		vf.Assert(a.code == code, "the status tells what went wrong")
		vf.Assert(a.sent.Get("Age") == "" && a.sent.Get("Etag") == "", "nothing stored is served")
		vf.Reach("failed")
	}
	w.origin = answer
	a = w.do(request("GET", "/p"))
	vf.Assert(a.code == 200 && string(a.body) == "fine", "the next request succeeds")
	if before && strict {
		vf.Assert(w.last.Header.Get("If-None-Match") == "e", "the stored response is still there")
		vf.Reach("kept")
	}
}

// A request is answered with 503 after 30 seconds, not earlier and not later,
// and the origin is told; a faster answer is passed on. Nothing is stored for a
// request given up, and other requests are not affected.
//
// Bounds: any delay of the origin up to 100 s in steps of a nanosecond other
// than exactly 30 s; two methods; an origin that stops when told or one that
// does not.
//
//vf:time=60
func C23_Timeout() {
	w := newWorld(&cache.HttpCacheConfig{Strict: true}, up)
	d := time.Duration(vf.Int("delay", 0, 100e9))
	vf.Assume(d != 30*time.Second)
	deaf := vf.Bool("deaf")
	told := false
	w.origin = func(r *http.Request) (*http.Response, error) {
		if r.URL.Path == "/fast" {
			return response(r, 200, "fast"), nil
		}
		if deaf {
			time.Sleep(d)
		} else {
			t := time.NewTimer(d)
			defer t.Stop()
			select {
			case <-t.C:
			case <-r.Context().Done():
				told = true
				return nil, r.Context().Err()
			}
		}
		return response(r, 200, "fine", "Cache-Control", "max-age=1000"), nil
	}
	method := [...]string{"GET", "POST"}[vf.Choose("method", 2)]
	start := time.Now()
	a := w.do(request(method, "/p"))
	took := time.Since(start)
	if d < 30*time.Second {
		vf.Assert(a.code == 200 && string(a.body) == "fine" && took == d, "an answer in time is passed on")
		vf.Reach("in time")
		return
	}
	vf.Assert(a.code == 503 && took == 30*time.Second, "a late answer is replaced after 30 s")
	vf.Assert(strings.Contains(string(a.body), "30s"), "the client is told about the time limit")
	vf.Wait()
	vf.Assert(told == !deaf, "the origin is told")
	b := w.do(request("GET", "/fast"))
	vf.Assert(b.code == 200 && string(b.body) == "fast", "other requests are not affected")
	if !deaf {
		n := w.n
		w.origin = func(r *http.Request) (*http.Response, error) { return response(r, 200, "new"), nil }
		c := w.do(request("GET", "/p"))
		vf.Assert(c.code == 200 && string(c.body) == "new" && w.n == n+1, "nothing is stored for a request given up")
	}
	vf.Reach("late")
}

// A client that goes away neither spoils the store nor other clients' requests.
//
// Bounds: a client going away before or after the origin's answer at any time
// within 14 s, while another one asks for the same page or a different one.
//
//vf:time=60
func C23_Gone() {
	w := newWorld(&cache.HttpCacheConfig{Strict: true}, up)
	d := time.Duration(vf.Int("delay", 2, 14e9))
	g := time.Duration(vf.Int("gone", 2, 14e9))
	vf.Assume(d != g)
	w.origin = func(r *http.Request) (*http.Response, error) {
		t := time.NewTimer(d)
		defer t.Stop()
		select {
		case <-t.C:
		case <-r.Context().Done():
			return nil, r.Context().Err()
		}
		return response(r, 200, "fine "+r.URL.Path, "Cache-Control", "max-age=1000"), nil
	}
	ctx, cancel := context.WithCancel(context.Background())
	time.AfterFunc(g, cancel)
	var a, b *rec
	done := make(chan bool)
	other := [...]string{"/p", "/q"}[vf.Choose("other", 2)]
	go func() {
		time.Sleep(1)
		b = w.do(request("GET", other))
		close(done)
	}()
	a = w.do(request("GET", "/p").WithContext(ctx))
	<-done
	if d < g {
		vf.Assert(a.code == 200 && string(a.body) == "fine /p", "a client that waits is served")
	}
	vf.Assert(b.code == 200 && string(b.body) == "fine "+other, "the other client is served")
	n := w.n
	c := w.do(request("GET", "/p"))
	vf.Assert(c.code == 200 && string(c.body) == "fine /p", "a later client is served")
	if d < g || other == "/p" {
		vf.Assert(w.n == n, "a complete answer is reused")
		vf.Reach("stored")
	} else {
		vf.Assert(w.n == n+1, "an answer given up is not stored")
		vf.Reach("gone")
	}
	cancel()
}

// However many requests wait for an origin, further ones are sent to it and to
// others at once.
//
// Bounds: 130 (thorough: 600) requests the origin does not answer, then one for
// the same or another origin that is answered after any time up to 29 s.
//
//vf:time=60 ttime=300 gs=5000 steps=20000000
func C23_Many() {
	vf.RealCodec()
	n := 130
	if vf.Thorough() {
		n = 600
	}
	took := time.Duration(vf.Int("took", 0, 29e9))
	other := vf.Bool("other")
	w := newDialing(&cache.HttpCacheConfig{Strict: true}, config.Upstreams{{Name: "o", Addr: "http://o", Path: "/other"}, up}, func(addr string, c net.Conn) error {
		go func() {
			r, err := http.ReadRequest(bufio.NewReader(c))
			if err != nil || strings.HasPrefix(r.URL.Path, "/slow") {
				return
			}
			time.Sleep(took)
			io.WriteString(c, "HTTP/1.1 200 OK\r\nContent-Length: 1\r\nCache-Control: no-store\r\n\r\nx")
		}()
		return nil
	})
	ctx, cancel := context.WithCancel(context.Background())
	for i := 0; i < n; i++ {
		r := request("GET", "/slow/"+strconv.Itoa(i)).WithContext(ctx)
		go w.do(r)
	}
	vf.Wait()
	begun := time.Now()
	path := "/fast"
	if other {
		path = "/other"
	}
	a := w.do(request("GET", path))
	vf.Assert(a.code == 200 && string(a.body) == "x", "the request is answered")
	vf.Assert(time.Since(begun) == took, "it does not wait for others")
	cancel()
	vf.Wait()
	vf.Reach("done")
}
