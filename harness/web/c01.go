package web

import (
	"crypto/tls"
	"net/http"
	"net/url"
	"strings"

	"github.com/kacheio/kache/pkg/cache"
	vf "github.com/kacheio/kache/zzvf/vf"
)

func keyOf(r *http.Request) string { return cache.NewKeyFromRequst(r).String() }

// refPath is the reference canonical form of an absolute path: no empty and no
// dot segments, no trailing slash.
func refPath(p string) string {
	var segs []string
	for _, s := range strings.Split(p, "/") {
		switch s {
		case "", ".":
		case "..":
			if len(segs) > 0 {
				segs = segs[:len(segs)-1]
			}
		default:
			segs = append(segs, s)
		}
	}
	return "/" + strings.Join(segs, "/")
}

// Two paths share a key exactly if they have the same canonical form.
//
// Bounds: two paths of up to 5 bytes (thorough 6) over {/ . a b % ?}.
//
//vf:paths=60000 tpaths=400000 time=60 ttime=400
func C01_Path() {
	n, m := 3, 3
	if vf.Thorough() {
		n, m = 4, 4
	}
	p := "/" + vf.String("p", n, "/.a%?")
	q := "/" + vf.String("q", m, "/.a%?")
	a, b := request("GET", p), request("GET", q)
	same := refPath(p) == refPath(q)
	eq := keyOf(a) == keyOf(b)
	vf.Assert(eq == same, "paths share a key exactly if their canonical forms are equal")
	if eq {
		vf.Reach("equal")
	} else {
		vf.Reach("different")
	}
}

type param struct{ k, v string }

func unhex(c byte) int {
	switch {
	case c >= '0' && c <= '9':
		return int(c - '0')
	case c >= 'a' && c <= 'f':
		return int(c-'a') + 10
	case c >= 'A' && c <= 'F':
		return int(c-'A') + 10
	}
	return -1
}

// refUnescape decodes a query component.
func refUnescape(s string) (string, bool) {
	var b []byte
	for i := 0; i < len(s); i++ {
		switch s[i] {
		case '%':
			if i+2 >= len(s) || unhex(s[i+1]) < 0 || unhex(s[i+2]) < 0 {
				return "", false
			}
			b = append(b, byte(unhex(s[i+1])<<4|unhex(s[i+2])))
			i += 2
		case '+':
			b = append(b, ' ')
		default:
			b = append(b, s[i])
		}
	}
	return string(b), true
}

// refQuery is the reference meaning of a query: its parameters in order.
func refQuery(q string) (ps []param, ok bool) {
	ok = true
	for _, s := range strings.Split(q, "&") {
		if s == "" {
			continue
		}
		if strings.Contains(s, ";") {
			return nil, false
		}
		k, v, _ := strings.Cut(s, "=")
		k, okk := refUnescape(k)
		v, okv := refUnescape(v)
		if !okk || !okv {
			return nil, false
		}
		ps = append(ps, param{k, v})
	}
	return ps, ok
}

// values of the parameter k in order.
func valuesOf(ps []param, k string) (vs []string) {
	for _, p := range ps {
		if p.k == k {
			vs = append(vs, p.v)
		}
	}
	return vs
}

// sameParams: the same values in the same order for every name.
func sameParams(a, b []param) bool {
	if len(a) != len(b) {
		return false
	}
	for _, p := range a {
		x, y := valuesOf(a, p.k), valuesOf(b, p.k)
		if len(x) != len(y) {
			return false
		}
		for i := range x {
			if x[i] != y[i] {
				return false
			}
		}
	}
	return true
}

func queryEquiv(q1, q2 string) bool {
	a, ok1 := refQuery(q1)
	b, ok2 := refQuery(q2)
	if !ok1 || !ok2 {
		return q1 == q2
	}
	return sameParams(a, b)
}

// Two queries share a key exactly if they consist of the same parameters (the
// order of parameters with different names is irrelevant); malformed queries
// are only equal to themselves.
//
// Bounds: two raw queries of 3 bytes each (thorough 4) over {a b = & % ; +}.
//
//vf:paths=200000 tpaths=1000000 time=80 ttime=600
func C01_Query() {
	n := 3
	if vf.Thorough() {
		n = 4
	}
	p := vf.String("p", n, "ab=&%;+")
	q := vf.String("q", n, "ab=&%;+")
	a, b := request("GET", "/"), request("GET", "/")
	a.URL.RawQuery, b.URL.RawQuery = p, q
	eq := keyOf(a) == keyOf(b)
	vf.Assert(eq == queryEquiv(p, q), "queries share a key exactly if their parameters are equal")
	if eq {
		vf.Reach("equal")
	} else {
		vf.Reach("different")
	}
}

// Permuted parameters share a key, different values do not.
//
// Bounds: two parameters with symbolic one-byte names and values of one to
// three bytes incl. an escape.
//
//vf:paths=100000 time=60
func C01_QueryPermutation() {
	k1, k2 := vf.String("k1", 1, "a-c"), vf.String("k2", 1, "a-c")
	v1, v2 := vf.String("v1", 1, "x-z+"), "%"+vf.String("v2", 2, "2A7")
	q1 := k1 + "=" + v1 + "&" + k2 + "=" + v2
	q2 := k2 + "=" + v2 + "&" + k1 + "=" + v1
	a, b := request("GET", "/"), request("GET", "/")
	a.URL.RawQuery, b.URL.RawQuery = q1, q2
	eq := keyOf(a) == keyOf(b)
	if k1 != k2 {
		vf.Reach("permuted")
		vf.Assert(eq, "the order of parameters with different names does not matter")
	} else {
		vf.Reach("repeated")
		vf.Assert(eq == queryEquiv(q1, q2), "the order of the values of one parameter matters")
	}
}

// Scheme, host, path and query all contribute to the key and cannot be
// confused with each other; the method does not contribute.
//
// Bounds: each component chosen from symbolic strings of 1-2 bytes over
// {a / ? & . :}.
//
//vf:paths=100000 time=60
func C01_Components() {
	mk := func(t string) (*http.Request, [4]string) {
		scheme := "http"
		if vf.Bool(t + "tls") {
			scheme = "https"
		}
		host := vf.String(t+"host", 1, "ab") + vf.String(t+"host2", 1, "a:.")
		path := "/" + vf.String(t+"path", 1, "a?/:")
		query := vf.String(t+"query", 1, "a?/=")
		r := request("GET", path)
		r.Host, r.URL.Host, r.URL.Scheme, r.URL.RawQuery = host, host, scheme, query
		return r, [4]string{scheme, host, refPath(path), query}
	}
	a, ca := mk("1")
	b, cb := mk("2")
	if vf.Bool("head") {
		b.Method = "HEAD"
	}
	eq := keyOf(a) == keyOf(b)
	same := vf.And(vf.StrEq(ca[0], cb[0]), vf.StrEq(ca[1], cb[1]), vf.StrEq(ca[2], cb[2]), queryEquiv(ca[3], cb[3]))
	vf.Assert(eq == same, "requests share a key exactly if scheme, host, path and query agree")
	if eq {
		vf.Reach("equal")
	} else {
		vf.Reach("different")
	}
}

// End to end: a response is only ever served for the resource it was fetched
// for. Request targets are parsed from their wire form, including encoded
// reserved characters.
//
// Bounds: two request targets of 4 symbolic bytes (thorough 5) over
// {a / % 2 F ? =}, one request each.
//
//vf:paths=300000 tpaths=2000000 time=100 ttime=700
func C01_EndToEnd() {
	n := 4
	if vf.Thorough() {
		n = 5
	}
	w := newWorld(strictCfg())
	w.origin = func(r *http.Request) (*http.Response, error) {
		return response(r, 200, "body of "+r.URL.RequestURI(), "Cache-Control", "max-age=100", "Date", now()), nil
	}
	target := func(s string) *http.Request {
		u, err := url.ParseRequestURI(s)
		vf.Assume(err == nil)
		r := request("GET", "/")
		r.URL = u
		u.Scheme, u.Host = "http", "h"
		return r
	}
	s1, s2 := "/a"+vf.String("s", n-2, "a/%2F?="), "/a"+vf.String("t", n, "a/%2F?=")
	r1, r2 := target(s1), target(s2)
	w.do(r1)
	_, body := w.do(r2)
	if w.n == 1 {
		vf.Reach("hit")
		p1, q1, _ := strings.Cut(s1, "?")
		p2, q2, _ := strings.Cut(s2, "?")
		vf.Assert(refPath(p1) == refPath(p2) && queryEquiv(q1, q2), "a stored response is only served for its own resource")
	} else {
		vf.Reach("miss")
		vf.Assert(body == "body of "+r2.URL.RequestURI(), "a miss is answered by the origin")
	}
}

// Hosts are compared including their port, for plain and for TLS requests
// with or without a scheme in the request target.
//
// Bounds: hosts of four shapes with two symbolic characters over {a b - 0 .}
// and five ports.
//
//vf:paths=100000 time=60
func C01_Host() {
	mk := func(t string) (*http.Request, bool, string) {
		r := request("GET", "/p")
		r.URL.Scheme, r.URL.Host = "", ""
		tls_ := vf.Bool(t + "tls")
		if vf.Bool(t + "absolute") {
			r.URL.Scheme = "http"
			if tls_ {
				r.URL.Scheme = "https"
			}
		} else if tls_ {
			r.TLS = &tls.ConnectionState{}
		}
		x := vf.String(t+"host", 2, "ab.0-")
		host := ""
		switch vf.Choose(t+"shape", 3) {
		case 0:
			host = "k" + x
		case 1:
			host = "www." + x + ".example.com"
		case 2:
			host = "[2001:db8::" + vf.String(t+"v6", 1, "0-9a-f") + "]"
		}
		host += [...]string{"", ":80", ":443", ":8080", ":8"}[vf.Choose(t+"port", 5)]
		r.Host = host
		return r, tls_, host
	}
	a, ta, ha := mk("1")
	b, tb, hb := mk("2")
	eq := keyOf(a) == keyOf(b)
	vf.Assert(eq == vf.And(ta == tb, vf.StrEq(ha, hb)), "requests share a key exactly if scheme and host agree")
	if eq {
		vf.Reach("equal")
	} else {
		vf.Reach("different")
	}
}

// Long and unusual resources are told apart as well.
//
// Bounds: paths and queries of about 3000 bytes that differ in two symbolic
// bytes (any byte from 0x80 on, or printable) at the start, in the middle and
// at the end.
//
//vf:paths=100000 time=60
func C01_Long() {
	mk := func(t string) (*http.Request, string, string) {
		pad := strings.Repeat("abcdefg-_~", 100)
		x, y := vf.String(t+"x", 1, "a-z\x80-\xff"), vf.String(t+"y", 1, "a-z0-9")
		path, query := "/p", "q=1"
		switch vf.Choose("where", 6) {
		case 0:
			path = "/" + x + pad + y
		case 1:
			path = "/" + pad + x + pad + y
		case 2:
			path = "/" + strings.Repeat("a/b/", 200) + x
		case 3:
			query = y + "=" + pad + pad + y
		case 4:
			query = "b=" + y + "&" + pad + pad + pad + "=" + pad + y
		case 5:
			query = strings.Repeat("k=v&", 300) + "k=" + y
		}
		r := request("GET", path)
		r.URL.RawQuery = query
		return r, path, query
	}
	a, pa, qa := mk("1")
	b, pb, qb := mk("2")
	eq := keyOf(a) == keyOf(b)
	vf.Assert(eq == vf.And(vf.StrEq(pa, pb), vf.StrEq(qa, qb)), "requests share a key exactly if path and query agree")
	if eq {
		vf.Reach("equal")
	} else {
		vf.Reach("different")
	}
}
