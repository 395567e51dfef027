package proxy

import (
	"context"
	"errors"
	"fmt"
	"io"
	"net/http"
	"strings"
	"sync"
	"time"

	"github.com/kacheio/kache/pkg/cache"
	vf "github.com/kacheio/kache/zzvf/vf"
)

func sameHeader(a, b http.Header, k string) bool {
	if len(a[k]) != len(b[k]) {
		return false
	}
	ok := true
	for i := range a[k] {
		ok = vf.And(ok, a[k][i] == b[k][i])
	}
	return ok
}

// A client served from the store gets the response the origin once gave:
// status, end-to-end headers and every byte of the body. Runs the real message
// codec.
//
// Bounds: a body of up to three symbolic bytes, with an empty line at its end or not, declared with a length, chunked
// or neither; two symbolic header values, one repeated and one empty header;
// statuses from 200 to 599 in cache-all mode; a response for another URL with up
// to four bytes stored after it or not.
//
//vf:time=90
func C29_Fidelity() {
	vf.RealCodec()
	w := newWorld(&cache.HttpCacheConfig{DefaultTTL: "1000s"}, up)
	codes := [...]int{200, 203, 204, 206, 301, 404, 410, 500, 503, 599}
	code := codes[vf.Choose("status", len(codes))]
	n := vf.Choose("len", 4)
	text := ""
	if code != 204 {
		text = vf.String("body", n, "\x00-\xff")
		if vf.Bool("lines") {
			text += "\r\n\r\n"
			n += 4
		}
	}
	v := vf.String("value", 1, "!-~") + " " + vf.String("value2", 1, "!-~")
	framing := vf.Choose("framing", 3)
	w.origin = func(r *http.Request) (*http.Response, error) {
		p := response(r, code, text, "X-V", v, "X-V", "second", "X-Empty", "", "Content-Type", "x/y; q=\"z\"", "Location", "/q?a=b&c")
		switch {
		case code == 204:
			p.ContentLength, p.Body = 0, http.NoBody
		case framing == 1:
			p.ContentLength = -1
			p.TransferEncoding = []string{"chunked"}
		case framing == 2:
			p.ContentLength = -1
		default:
			p.Header.Set("Content-Length", fmt.Sprint(n))
		}
		return p, nil
	}
	a := w.do(request("GET", "/p"))
	vf.Assert(a.code == code && string(a.body) == text, "the response is passed on")
	vf.Assert(w.n == 1, "the origin is asked")
	if vf.Bool("another") {
		first := w.origin
		w.origin = func(r *http.Request) (*http.Response, error) {
			return response(r, code, strings.Repeat("z", vf.Choose("other", 5)), "X-V", "other", "X-O", "other"), nil
		}
		w.do(request("GET", "/another"))
		w.origin = first
		w.n = 1
	}
	for i := 0; i < 2; i++ {
		b := w.do(request("GET", "/p"))
		vf.Assert(w.n == 1, "the response is stored")
		vf.Assert(b.code == code, "the stored status is the origin's")
		vf.Assert(string(b.body) == text, "the stored body is the origin's")
		for _, k := range [...]string{"X-V", "X-Empty", "Content-Type", "Location"} {
			vf.Assert(sameHeader(a.sent, b.sent, k), "the stored headers are the origin's")
		}
		vf.Assert(sameHeader(a.sent, b.sent, "Content-Length"), "the declared length is the origin's")
		for k := range b.sent {
			_, ok := a.sent[k]
			vf.Assert(ok || k == "Age", "nothing but the age is added")
		}
		vf.Advance(time.Second)
	}
	vf.Reach("done")
}

// broken is a body that fails after some bytes.
type broken struct {
	r   io.Reader
	err error
}

func (b *broken) Read(p []byte) (int, error) {
	n, err := b.r.Read(p)
	if err == io.EOF {
		err = b.err
	}
	return n, err
}

func (b *broken) Close() error { return nil }

// ask sends a request as the HTTP server does and tells whether the client got
// a complete response (else the connection is cut).
func (w *world) ask(r *http.Request) (a *rec, complete bool) {
	r = r.WithContext(context.WithValue(r.Context(), http.ServerContextKey, &http.Server{}))
	defer func() {
		if x := recover(); x != nil {
			vf.Assert(x == http.ErrAbortHandler, "a request ends without a crash")
			complete = false
		}
	}()
	return w.do(r), true
}

// A response that breaks off is neither stored nor shared as a complete one.
//
// Bounds: a body of five bytes that breaks off after any number of them, with
// or without declared length; strict or not; a stale response stored before or
// not; a second request waiting for the first or not.
//
//vf:time=60
func C29_Truncated() {
	w := newWorld(&cache.HttpCacheConfig{Strict: vf.Bool("strict"), DefaultTTL: "1000s"}, up)
	k := vf.Choose("bytes", 6)
	known := vf.Bool("known")
	before := vf.Bool("before")
	complete := func(r *http.Request) (*http.Response, error) {
		return response(r, 200, "hello", "Cache-Control", "max-age=10"), nil
	}
	if before {
		w.origin = complete
		w.do(request("GET", "/p"))
		vf.Advance(1001 * time.Second)
	}
	failed := false
	w.origin = func(r *http.Request) (*http.Response, error) {
		if failed {
			return complete(r)
		}
		failed = true
		time.Sleep(time.Second)
		p := response(r, 200, "hello", "Cache-Control", "max-age=10")
		p.Body = &broken{strings.NewReader("hello"[:k]), errors.New("connection reset")}
		if !known {
			p.ContentLength = -1
		}
		return p, nil
	}
	check := func(a *rec, ok bool) {
		vf.Assert(!ok || a.code >= 500 || a.code == 200 && string(a.body) == "hello", "no client gets a broken response as a complete one")
	}
	if vf.Bool("second") {
		var wg sync.WaitGroup
		wg.Add(1)
		go func() {
			defer wg.Done()
			time.Sleep(time.Millisecond)
			check(w.ask(request("GET", "/p")))
		}()
		check(w.ask(request("GET", "/p")))
		wg.Wait()
	} else {
		a, ok := w.ask(request("GET", "/p"))
		check(a, ok)
		vf.Assert(!ok || a.code >= 500, "the client notices")
	}
	a, ok := w.ask(request("GET", "/p"))
	vf.Assert(ok && a.code == 200 && string(a.body) == "hello", "the broken response is not stored")
	vf.Reach("done")
}

// A stored entry that is damaged counts as none.
//
// Bounds: an entry cut off after any number of bytes, emptied, or replaced by
// up to four symbolic bytes; runs the real codec.
//
//vf:time=90
func C29_Damaged() {
	vf.RealCodec()
	w := newWorld(&cache.HttpCacheConfig{Strict: true}, up)
	w.origin = func(r *http.Request) (*http.Response, error) {
		return response(r, 200, fmt.Sprint("answer ", w.n), "Cache-Control", "max-age=100"), nil
	}
	vf.Assert(string(w.do(request("GET", "/p")).body) == "answer 1", "the origin answers")
	vf.Assert(string(w.do(request("GET", "/p")).body) == "answer 1", "the answer is stored")
	keys := w.pd.Keys(context.Background(), "")
	vf.Assert(len(keys) == 1, "there is one entry")
	e := w.pd.Get(context.Background(), keys[0])
	if vf.Bool("cut") {
		e = e[:vf.Choose("at", len(e))]
	} else {
		e = []byte(vf.String("entry", vf.Choose("len", 5), "\x00-\xff"))
	}
	w.pd.Set(keys[0], e, time.Hour)
	a := w.do(request("GET", "/p"))
	vf.Assert(a.code == 200 && string(a.body) == "answer 2", "the origin is asked instead of a damaged entry")
	a = w.do(request("GET", "/p"))
	vf.Assert(a.code == 200 && string(a.body) == "answer 2" && w.n == 2, "the damaged entry is replaced")
	vf.Reach("done")
}
