package web

import (
	"context"
	"errors"
	"io"
	"net/http"
	"sync"
	"sync/atomic"

	"github.com/kacheio/kache/pkg/server/middleware"
	vf "github.com/kacheio/kache/zzvf/vf"
)

// Concurrent plain GET requests for one URL share one origin contact, each
// gets the complete response, and a request started after another completed
// never gets that one's result.
//
// Bounds: three requests for one URL; every interleaving with up to 2
// (thorough: 3) preemptions, or two requests and 4 (thorough: 5) preemptions.
//
//vf:time=60 ttime=300
func C14_Share() {
	var running, clock atomic.Int32
	var ended [4]atomic.Int32
	var n atomic.Int32
	code, val := 404, "xy"
	c := middleware.NewCoalesced(rtf(func(r *http.Request) (*http.Response, error) {
		vf.Assert(running.Add(1) == 1, "one origin contact at a time")
		g := n.Add(1)
		vf.Yield()
		running.Add(-1)
		resp := response(r, code, string(rune('0'+g)), "X-Val", val, "Age", "7")
		return resp, nil
	}))
	m, k := 3, 2
	if vf.Bool("two") {
		m, k = 2, 4
	}
	if vf.Thorough() {
		k++
	}
	var wg sync.WaitGroup
	wg.Add(m)
	vf.Explore(k)
	for i := 0; i < m; i++ {
		go func() {
			defer wg.Done()
			start := clock.Add(1)
			r := request("GET", "/a")
			r.URL.RawQuery = "b=c"
			resp, err := c.RoundTrip(r)
			vf.Assert(err == nil, "the request succeeds")
			end := clock.Add(1)
			e := [4]int32{ended[0].Load(), ended[1].Load(), ended[2].Load(), ended[3].Load()}
			body := readAll(resp)
			vf.Assert(resp.StatusCode == code && len(body) == 1, "the complete response is received")
			vf.Assert(len(resp.Header["X-Val"]) == 1 && resp.Header["X-Val"][0] == val && resp.Header.Get("Age") == "7", "all header fields are received")
			g := int(body[0] - '0')
			vf.Assert(g >= 1 && g <= int(n.Load()), "the response is one of the origin's")
			vf.Assert(e[g] == 0 || e[g] > start, "no response completed before the request started is shared")
			ended[g].CompareAndSwap(0, end)
		}()
	}
	wg.Wait()
	vf.StopExplore()
	if int(n.Load()) < m {
		vf.Reach("shared")
	} else {
		vf.Reach("separate")
	}
}

// With the cache behind it the origin is contacted exactly once for concurrent
// plain GET requests for a storable response.
//
// Bounds: two (thorough: three) requests for one URL; every interleaving with
// up to 2 preemptions.
//
//vf:time=60 ttime=300
func C14_Cached() {
	w := newWorld(strictCfg())
	var n atomic.Int32
	w.tr.Transport = rtf(func(r *http.Request) (*http.Response, error) {
		n.Add(1)
		vf.Yield()
		return response(r, 200, "body", "Cache-Control", "max-age=100", "Date", now(), "Content-Type", "text/plain"), nil
	})
	c := middleware.NewCoalesced(w.tr)
	m := 2
	if vf.Thorough() {
		m = 3
	}
	var wg sync.WaitGroup
	wg.Add(m)
	vf.Explore(2)
	for i := 0; i < m; i++ {
		go func() {
			defer wg.Done()
			resp, err := c.RoundTrip(request("GET", "/a"))
			vf.Assert(err == nil && resp.StatusCode == 200, "the request succeeds")
			vf.Assert(readAll(resp) == "body" && resp.Header.Get("Content-Type") == "text/plain", "the response is complete")
		}()
	}
	wg.Wait()
	vf.StopExplore()
	vf.Assert(n.Load() == 1, "the origin is contacted once")
	vf.Reach("done")
}

// pair sends r1, and r2 while r1's origin contact is under way. It returns the
// numbers of the origin contacts that produced the responses.
func pair(origin func(g int, r *http.Request) (*http.Response, error), r1, r2 *http.Request) (g [2]int, errs [2]error, contacts int) {
	return pairOn(middleware.NewCoalesced, origin, r1, r2)
}

func pairOn(mk func(http.RoundTripper) http.RoundTripper, origin func(g int, r *http.Request) (*http.Response, error), r1, r2 *http.Request) (g [2]int, errs [2]error, contacts int) {
	release := make(chan struct{})
	var n atomic.Int32
	c := mk(rtf(func(r *http.Request) (*http.Response, error) {
		g := int(n.Add(1))
		if g == 1 {
			<-release
		}
		resp, err := origin(g, r)
		if resp != nil {
			resp.Header["X-N"] = []string{string(rune('0' + g))}
		}
		return resp, err
	}))
	var wg sync.WaitGroup
	send := func(i int, r *http.Request) {
		wg.Add(1)
		go func() {
			defer wg.Done()
			defer func() {
				if recover() != nil {
					errs[i] = errPanic
				}
			}()
			resp, err := c.RoundTrip(r)
			errs[i] = err
			if err == nil {
				g[i] = int(resp.Header.Get("X-N")[0] - '0')
				_, errs[i] = io.ReadAll(resp.Body)
			}
		}()
		vf.Wait()
	}
	send(0, r1)
	send(1, r2)
	close(release)
	wg.Wait()
	contacts = int(n.Load())

	// Whatever happened, later requests are not affected.
	resp, err := c.RoundTrip(request("GET", "/a"))
	if err == nil {
		vf.Assert(resp.Header.Get("X-N")[0] == byte('0'+contacts+1), "a later request has its own origin contact")
	}
	vf.Assert(int(n.Load()) == contacts+1, "a later request contacts the origin")
	return g, errs, contacts
}

var errPanic = errors.New("panic")

// Requests that may get different responses are never coalesced: other
// methods, other URLs, or any of the header fields that carry credentials,
// select a part or a state of the resource or tell the cache what to do.
//
// Bounds: two overlapping requests, either of them with a method of 3-4
// symbolic letters, another scheme or host with a symbolic character, a path of up to two symbolic characters out of a ? % and a
// query of up to one out of x ?, or one of ten header
// fields with a symbolic value (or a harmless one).
//
//vf:time=60
func C14_Different() {
	mk := func(t string, special bool) (*http.Request, bool) {
		r := request("GET", "/a")
		if !special {
			return r, true
		}
		switch vf.Choose(t, 3) {
		case 0:
			r.Method = vf.String("method", 3+vf.Choose("len", 2), "GETHAD")
			return r, vf.StrEq(r.Method, "GET")
		case 1:
			if vf.Bool("origin") {
				r.URL.Scheme = [...]string{"http", "https"}[vf.Choose("scheme", 2)]
				r.URL.Host = "h" + vf.String("host", vf.Choose("port", 2), "a:")
				return r, true
			}
			r.URL.Path = "/" + vf.String("path", 1+vf.Choose("more", 2), "a?%")
			r.URL.RawQuery = vf.String("query", vf.Choose("query", 2), "x?")
			return r, true
		}
		h := [...]string{"Authorization", "Range", "If-Range", "If-Match", "If-None-Match", "If-Modified-Since",
			"If-Unmodified-Since", "Cookie", "Cache-Control", "Pragma", "X-Any"}[vf.Choose("header", 11)]
		r.Header[h] = []string{vf.String("value", 1, " -~")}
		return r, h == "X-Any"
	}
	which := vf.Choose("which", 3)
	r1, ok1 := mk("first", which != 1)
	r2, ok2 := mk("second", which != 0)
	g, errs, n := pair(func(g int, r *http.Request) (*http.Response, error) {
		return response(r, 200, "x"), nil
	}, r1, r2)
	vf.Assert(errs[0] == nil && errs[1] == nil, "both requests succeed")
	vf.Assert(g[0] == 1, "the first request gets its own response")
	same := vf.And(ok1, ok2, vf.StrEq(r1.URL.Path, r2.URL.Path), vf.StrEq(r1.URL.RawQuery, r2.URL.RawQuery),
		r1.URL.Scheme == r2.URL.Scheme, vf.StrEq(r1.URL.Host, r2.URL.Host))
	if same {
		vf.Reach("same")
		vf.Assert(n == 1 && g[1] == 1, "equal requests share one origin contact")
	} else {
		vf.Reach("different")
		vf.Assert(n == 2 && g[1] == 2, "different requests have an origin contact each")
	}
}

// Responses for a single client are not shared: private, no-store or with a
// cookie.
//
// Bounds: two overlapping requests; a symbolic Cache-Control directive of 7-8
// letters or dashes, possibly on a second line, or Set-Cookie.
//
//vf:time=60
func C14_Private() {
	d := ""
	h := http.Header{}
	priv := false
	switch vf.Choose("kind", 3) {
	case 0:
		d = vf.String("d", 7+vf.Choose("len", 2), "A-Za-z-")
		h["Cache-Control"] = []string{d}
	case 1:
		d = vf.String("d", 7+vf.Choose("len", 2), "A-Za-z-")
		h["Cache-Control"] = []string{"max-age=10", d}
	case 2:
		h["Set-Cookie"] = []string{"a=b"}
		priv = true
	}
	l := lower(d)
	priv = vf.Or(priv, vf.StrEq(l, "no-store"), vf.StrEq(l, "private"))
	g, errs, n := pair(func(g int, r *http.Request) (*http.Response, error) {
		resp := response(r, 200, "x")
		resp.Header = h.Clone()
		return resp, nil
	}, request("GET", "/a"), request("GET", "/a"))
	vf.Assert(errs[0] == nil && errs[1] == nil, "both requests succeed")
	if priv {
		vf.Reach("private")
		vf.Assert(n == 2 && g == [2]int{1, 2}, "a private response is not shared")
	} else {
		vf.Reach("public")
		vf.Assert(n == 1 && g == [2]int{1, 1}, "any other response is shared")
	}
}

type failingBody struct{ err error }

func (b failingBody) Read([]byte) (int, error) { return 0, b.err }
func (b failingBody) Close() error             { return nil }

// A failing, canceled or panicking origin contact neither blocks the waiting
// requests nor later ones; a cancellation of one client's request does not
// make another client's request fail.
//
// Bounds: two overlapping requests, the first failing in one of five ways.
//
//vf:time=30
func C14_Failure() {
	failure := errors.New("connection lost")
	kind := vf.Choose("kind", 5)
	g, errs, n := pair(func(g int, r *http.Request) (*http.Response, error) {
		if g > 1 {
			return response(r, 200, "x"), nil
		}
		switch kind {
		case 0:
			return nil, failure
		case 1:
			return nil, context.Canceled
		case 2:
			return nil, context.DeadlineExceeded
		case 3:
			panic(http.ErrAbortHandler)
		}
		resp := response(r, 200, "x")
		resp.Body = failingBody{failure}
		return resp, nil
	}, request("GET", "/a"), request("GET", "/a"))
	switch kind {
	case 0:
		vf.Reach("error")
		vf.Assert(n == 1 && errs[0] == failure && errs[1] == failure, "both requests get the error")
	case 4:
		vf.Reach("truncated")
		vf.Assert(errs[0] != nil && errs[1] != nil, "no request gets a truncated response")
	case 1, 2, 3:
		vf.Reach("canceled")
		vf.Assert(errs[0] != nil, "the first request fails")
		vf.Assert(errs[1] == nil && g[1] == 2 && n == 2, "the second request gets its own response")
	}
}
