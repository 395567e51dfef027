package web

import (
	"net/http"

	"github.com/kacheio/kache/pkg/cache"
	vf "github.com/kacheio/kache/zzvf/vf"
)

func cacheableStatus(c int) bool {
	return vf.Or(c == 200, c == 203, c == 204, c == 206, c == 300, c == 301, c == 308, c == 404,
		c == 405, c == 410, c == 414, c == 451, c == 501)
}

// In strict mode a response is stored exactly if its status is cacheable,
// neither side forbids storing, and there is enough data to decide about
// freshness or validation is mandatory anyway.
//
// Bounds: any status 200-599; any combination of ten response directives with
// symbolic seconds (0..2^31), upper or lower case, one or two header lines in
// either order; Expires and Date optional; request directives no-store and
// Pragma.
//
//vf:time=80 ttime=300
func C03_Storable() {
	w := newWorld(strictCfg())
	code := int(vf.Int("code", 200, 599))
	vf.Assume(code != 304)
	h := http.Header{}
	var lines []string
	forbidden, data := false, false
	add := func(s string) { lines = append(lines, s) }
	switch vf.Choose("store", 6) {
	case 0:
	case 1:
		add("no-store")
		forbidden = true
	case 2:
		add("private")
		forbidden = true
	case 3:
		add("No-Store")
		forbidden = true
	case 4:
		add("PRIVATE=\"x\"")
		forbidden = true
	case 5:
		add("public")
	}
	switch vf.Choose("life", 8) {
	case 0:
	case 1:
		add("max-age=" + vf.Dec(vf.Int("ma", 0, 1<<31)))
		data = true
	case 2:
		add("s-maxage=" + vf.Dec(vf.Int("ma", 0, 1<<31)))
		data = true
	case 3:
		add("no-cache")
		data = true
	case 4:
		add("Max-Age=" + vf.Dec(vf.Int("ma", 0, 1<<31)))
		data = true
	case 5:
		add("no-cache=\"Set-Cookie\"")
		data = true
	case 6:
		add("must-revalidate")
	case 7:
		add("max-age=x")
	}
	if len(lines) == 2 {
		switch vf.Choose("layout", 4) {
		case 0:
			h["Cache-Control"] = lines
		case 1:
			h["Cache-Control"] = []string{lines[1], lines[0]}
		case 2:
			h["Cache-Control"] = []string{lines[0] + "," + lines[1]}
		case 3:
			h["Cache-Control"] = []string{"foo , " + lines[1] + "  ,\t" + lines[0]}
		}
	} else if len(lines) == 1 {
		h["Cache-Control"] = lines
	}
	date, exp := vf.Bool("date"), vf.Bool("expires")
	if date {
		h.Set("Date", now())
	}
	if exp {
		h.Set("Expires", ago(-100))
	}
	data = data || date && exp
	w.origin = func(r *http.Request) (*http.Response, error) {
		resp := response(r, code, "x")
		resp.Header = h
		return resp, nil
	}
	r := request("GET", "/a")
	reqForbids := false
	switch vf.Choose("req", 5) {
	case 1:
		r.Header["Cache-Control"] = []string{"no-store"}
		reqForbids = true
	case 2:
		r.Header["Cache-Control"] = []string{"max-age=10, NO-STORE"}
		reqForbids = true
	case 3:
		r.Header["Cache-Control"] = []string{"max-age=10", "no-store"}
		reqForbids = true
	case 4:
		r.Header["Pragma"] = []string{"no-cache"}
	}
	resp, _ := w.do(r)
	vf.Assert(resp.StatusCode == code, "the origin's response is passed on")
	stored := w.pd.Size() == 1
	want := vf.And(cacheableStatus(code), !forbidden, data, !reqForbids)
	vf.Assert(stored == want, "stored exactly if storable")
	if stored {
		vf.Reach("stored")
	} else {
		vf.Reach("not stored")
	}
}

func lower(s string) string {
	b := []byte(s)
	for i := range b {
		b[i] = byte(vf.Ite(vf.And(b[i] >= 'A', b[i] <= 'Z'), int64(b[i])+32, int64(b[i])))
	}
	return string(b)
}

// No spelling of a directive other than the defined ones forbids storing, and
// every spelling of those does.
//
// Bounds: one symbolic directive of 7, 8 or 9 letters or dashes next to a
// max-age directive, with an optional argument and either order.
//
//vf:time=60
func C03_Directive() {
	n := 7 + vf.Choose("len", 3)
	d := vf.String("d", n, "A-Za-z-")
	arg := ""
	if vf.Bool("arg") {
		arg = "=" + vf.String("arg", 1, "a-z0-9")
	}
	s := "max-age=7"
	if vf.Bool("first") {
		s = d + arg + ", " + s
	} else {
		s = s + " ," + d + arg
	}
	res := &http.Response{StatusCode: 200, Header: http.Header{"Cache-Control": {s}}}
	got := cache.IsCacheableResponse(res)
	l := lower(d)
	vf.Assume(vf.And(vf.Not(vf.StrEq(l, "s-maxage")), vf.Not(vf.StrEq(l, "max-age")))) // lifetimes are C04's subject
	forbid := vf.Or(vf.StrEq(l, "no-store"), vf.StrEq(l, "private"))
	vf.Assert(got == vf.Not(forbid), "exactly no-store and private forbid storing")
	if got {
		vf.Reach("storable")
	} else {
		vf.Reach("forbidden")
	}
}

// The same for the request's directives.
//
// Bounds: one symbolic directive of 8 letters or dashes.
//
//vf:time=40
func C03_RequestDirective() {
	d := vf.String("d", 8, "A-Za-z-")
	w := newWorld(strictCfg())
	w.origin = func(r *http.Request) (*http.Response, error) {
		return response(r, 200, "x", "Cache-Control", "max-age=100", "Date", now()), nil
	}
	w.do(request("GET", "/a", "Cache-Control", d))
	stored := w.pd.Size() == 1
	vf.Assert(stored == vf.Not(vf.StrEq(lower(d), "no-store")), "exactly no-store forbids storing")
	if stored {
		vf.Reach("stored")
	} else {
		vf.Reach("forbidden")
	}
}
