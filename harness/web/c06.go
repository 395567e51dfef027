package web

import (
	"errors"
	"net/http"
	"time"

	vf "github.com/kacheio/kache/zzvf/vf"
)

// Validation of a stored response that may not be reused as it is: the origin
// is asked with exactly the validators of the stored response, and its answer
// decides about what is served and what is stored afterwards.
//
// Bounds: any subset of Etag, Last-Modified and Date on the stored response,
// symbolic validator values, header fields with one
// or two symbolic values; any staleness up to 10^6 s; origin answers 304
// (matching, other or missing Etag, or one that differs in weakness only; new, extra or no header fields), any
// other status 200-599, or an error; further request after any delay up to
// 10^6 s.
//
//vf:time=120 ttime=300
func C06_Validate() {
	w := newWorld(strictCfg())
	t0 := time.Now().Unix()
	old, both, fresh := anyValues("o"), anyValues("b"), anyValues("n")
	h := http.Header{"X-Old": old, "X-Both": anyValues("ob")}
	hasEtag, hasMod, hasDate := vf.Bool("etag"), vf.Bool("mod"), vf.Bool("date")
	etag, mod, date := "", "", ""
	weak := false
	if hasEtag {
		etag = "\"" + vf.String("etagv", 2, "a-z") + "\""
		if weak = vf.Bool("weak"); weak {
			etag = "W/" + etag
		}
		h.Set("Etag", etag)
	}
	if hasMod {
		mod = vf.HTTPDate(t0 - vf.Int("modago", 1, 100000000))
		h.Set("Last-Modified", mod)
	}
	if hasDate {
		date = now()
		h.Set("Date", date)
	}
	noCache := vf.Bool("nocache")
	if noCache {
		h.Set("Cache-Control", "no-cache")
	} else {
		h.Set("Cache-Control", "max-age=100")
	}
	w.store(h, "old")
	vf.Advance(time.Duration(vf.Int("delay", 101, 1000000)) * time.Second)

	r := request("GET", "/a", "X-Client", "c")
	w.origin = nil
	kind := vf.Choose("answer", 3)
	var code int
	etagMode, freshen := 0, false
	nh := http.Header{"X-Both": both, "X-New": fresh, "Vary": {"X"}, "Content-Length": {"77"}}
	if vf.Bool("newdate") {
		nh.Set("Date", now())
		freshen = true
	}
	switch kind {
	case 0:
		code = 304
		etagMode = vf.Choose("etagmode", 4)
		switch etagMode {
		case 1:
			nh.Set("Etag", etag)
			vf.Assume(hasEtag)
		case 2:
			nh.Set("Etag", "\"other\"")
		case 3: // the same tag, but weak instead of strong or the other way round
			vf.Assume(hasEtag)
			if weak {
				nh.Set("Etag", etag[2:])
			} else {
				nh.Set("Etag", "W/"+etag)
			}
		}
	case 1:
		code = int(vf.Int("code", 200, 599))
		vf.Assume(code != 304)
		nh.Set("Cache-Control", "max-age=50")
		nh.Set("Date", now())
	}
	failure := errors.New("connection lost")
	w.origin = func(r *http.Request) (*http.Response, error) {
		if kind == 2 {
			return nil, failure
		}
		resp := response(r, code, "new")
		resp.Header = nh.Clone()
		return resp, nil
	}
	resp, err := w.tr.RoundTrip(r)

	// The request the origin got.
	vf.Assert(w.n == 2, "the origin is asked once")
	got := w.last.Header
	vf.Assert(len(got["If-None-Match"]) == b2i(hasEtag), "If-None-Match exactly with an Etag")
	if hasEtag {
		vf.Assert(got["If-None-Match"][0] == etag, "If-None-Match is the stored Etag")
	}
	vf.Assert(len(got["If-Modified-Since"]) == b2i(hasMod || hasDate), "If-Modified-Since exactly with a date")
	if hasMod {
		vf.Assert(got["If-Modified-Since"][0] == mod, "If-Modified-Since is the stored Last-Modified")
	} else if hasDate {
		vf.Assert(got["If-Modified-Since"][0] == date, "If-Modified-Since is the stored Date")
	}
	vf.Assert(len(got["X-Client"]) == 1 && got["X-Client"][0] == "c" && w.last.Method == "GET", "the request is passed on")
	vf.Assert(len(r.Header) == 1, "the client's request is not modified")

	if kind == 2 {
		vf.Reach("error")
		vf.Assert(err != nil, "an origin error is reported")
		vf.Assert(w.pd.Size() == 1, "an origin error does not remove the stored response")
		return
	}
	vf.Assert(err == nil, "the round trip succeeds")
	body := readAll(resp)
	stored := w.pd.Size() == 1
	if kind == 1 {
		vf.Reach("replaced")
		vf.Assert(resp.StatusCode == code && body == "new", "another answer than 304 is passed on")
		vf.Assert(stored == cacheableStatus(code), "it replaces the stored response, or removes it if it may not be stored")
		if stored {
			w.origin = nil
			resp, body = w.do(request("GET", "/a"))
			vf.Assert(w.n == 2 && (code == 204 || body == "new") && resp.StatusCode == code, "the new response is stored")
			vf.Assert(len(resp.Header["X-Old"]) == 0, "the old response is gone")
		}
		return
	}

	vf.Reach("validated")
	check := func(resp *http.Response, body string) {
		vf.Assert(resp.StatusCode == 200 && body == "old", "the stored response is served after a 304")
		vf.Assert(sameValues(resp.Header["X-Old"], old), "stored header fields are kept")
		vf.Assert(sameValues(resp.Header["X-Both"], both), "header fields of the 304 replace stored ones")
		vf.Assert(sameValues(resp.Header["X-New"], fresh), "header fields of the 304 are added")
		vf.Assert(resp.Header.Get("Content-Length") == "3", "the content length is never updated")
		vf.Assert(resp.Header.Get("Etag") == etag, "the Etag is never updated")
	}
	check(resp, body)
	if etagMode >= 2 {
		vf.Assert(!stored, "a 304 for another representation does not refresh the stored response")
		return
	}
	vf.Assert(stored, "the validated response stays stored")
	// Afterwards it is fresh again, for its lifetime counted from the validation.
	d2 := vf.Int("delay2", 0, 1000000)
	vf.Advance(time.Duration(d2) * time.Second)
	resp, body = w.do(request("GET", "/a"))
	check(resp, body)
	reused := w.n == 2
	if noCache {
		vf.Assert(!reused, "no-cache is always validated")
	} else if freshen {
		vf.Assert(reused == (d2 <= 100), "the lifetime counts from the validation")
	} else if hasDate {
		vf.Assert(!reused, "without a new date the response stays stale")
	} else {
		vf.Assert(reused == (d2 <= 100), "without any date the lifetime counts from the validation")
	}
}

// anyValues is one or two symbolic values of a header field.
func anyValues(t string) []string {
	vs := []string{vf.String(t, 1, "a-z")}
	if vf.Bool(t + "two") {
		vs = append(vs, vf.String(t, 1, "a-z"))
	}
	return vs
}

func sameValues(a, b []string) bool {
	if len(a) != len(b) {
		return false
	}
	same := true
	for i := range a {
		same = vf.And(same, a[i] == b[i])
	}
	return same
}

func b2i(b bool) int {
	if b {
		return 1
	}
	return 0
}

// A 304 that does not answer a validation by the cache reaches the client as
// it is and is never stored.
//
// Bounds: nothing, a fresh or a stale stored response without validators... or
// a conditional request by the client; HEAD or GET.
//
//vf:time=40
func C06_Unsolicited() {
	w := newWorld(strictCfg())
	method := "GET"
	if vf.Bool("head") {
		method = "HEAD"
	}
	if vf.Bool("stored") {
		w.store(http.Header{"Cache-Control": {"max-age=100"}, "Etag": {"\"e\""}, "Date": {now()}}, "old")
	}
	n, size := w.n, w.pd.Size()
	r := request(method, "/a")
	cond := vf.Bool("conditional")
	if cond {
		r.Header["If-None-Match"] = []string{"\"" + vf.String("inm", 1, "a-z") + "\""}
	}
	w.origin = func(r *http.Request) (*http.Response, error) {
		return response(r, 304, "", "Etag", "\"e\"", "Cache-Control", "max-age=100", "Date", now()), nil
	}
	resp, _ := w.do(r)
	if n == 1 && !cond {
		vf.Reach("hit")
		vf.Assert(w.n == n && resp.StatusCode == 200, "the fresh response is served")
		return
	}
	vf.Reach("unsolicited")
	vf.Assert(w.n == n+1 && resp.StatusCode == 304, "the 304 is passed on")
	vf.Assert(w.pd.Size() == size, "a 304 is neither stored nor does it change the store")
}
