package admin

import (
	"net/http"
	"strings"

	"github.com/kacheio/kache/pkg/config"
	vf "github.com/kacheio/kache/zzvf/vf"
)

// prefixes and the paths they stand for.
var prefixes = [...][2]string{
	{"", "/api"}, {"/x", "/x"}, {"x", "/x"}, {"x/", "/x"}, {"/x/", "/x"}, {"/a/b", "/a/b"}, {"a/b/", "/a/b"}, {"/", ""},
}

type route struct {
	method, path string
	below        bool // paths starting with it as well
}

// vary makes any change to a path, or none.
func vary(p string) string {
	const alpha = "a-z/.%-"
	i := 0
	switch vf.Choose("vary", 5) {
	case 1: // another byte
		i = 1 + vf.Choose("at", len(p)-1)
		return p[:i] + vf.String("byte", 1, alpha) + p[i+1:]
	case 2: // one byte less
		i = 1 + vf.Choose("at", len(p)-1)
		return p[:i] + p[i+1:]
	case 3: // more at the end
		return p + vf.String("tail", 1+vf.Choose("more", 2), alpha)
	case 4: // more at the front
		return "/" + vf.String("front", 1, "a-z") + p
	}
	return p
}

// The API routes are found below the normalised prefix with their own method
// only; anything else is answered with an error and has no effect.
//
// Bounds: eight spellings of the prefix; the paths of all routes, with one
// byte replaced by a symbolic one or left out at every position, with one or
// two symbolic bytes appended or one segment prepended; seven methods.
//
//vf:time=120
func C19_Routes() {
	px := prefixes[vf.Choose("prefix", len(prefixes))]
	w := newWorld(&config.API{Port: 6067, Prefix: px[0]})
	b := px[1]
	late := 0
	w.api.RegisterRoute("POST", "/cache/config/reload", func(rw http.ResponseWriter, r *http.Request) {
		late++
		rw.WriteHeader(202)
	})
	slash := ""
	if b == "" {
		slash = "/"
	}
	w.api.RegisterRoute("POST", slash+"cache/late", func(rw http.ResponseWriter, r *http.Request) {
		late++
		rw.WriteHeader(202)
	})
	w.set("a", "b")
	routes := [...]route{
		{"GET", b + "/cache/keys", true}, {"GET", b + "/cache/config", false}, {"PUT", b + "/cache/config/update", false},
		{"DELETE", b + "/cache/invalidate", false}, {"DELETE", b + "/cache/flush", false}, {"POST", b + "/cache/config/reload", false},
		{"POST", b + "/cache/late", false},
		{"PURGE", "/", false}, {"GET", "/version", true}, {"GET", "/metrics", true},
	}
	p := routes[vf.Choose("path", 7)].path
	p = vary(p)
	method := [...]string{"GET", "HEAD", "POST", "PUT", "DELETE", "PURGE", "PATCH"}[vf.Choose("method", 7)]
	match := -1
	for i, x := range routes {
		if method != x.method {
			continue
		}
		if p == x.path || x.below && strings.HasPrefix(p, x.path) {
			match = i
			break
		}
	}
	r := request(method, p, "X-Purge-Key", "a")
	r.Body = body("default_ttl: 9s\n")
	before := w.hc.Config()
	a := do(w.api, r)
	ttl := w.hc.Config().DefaultTTL
	hasA, hasB := w.has("a"), w.has("b")
	if match < 0 {
		vf.Assert(a.code == 404 || a.code == 405 || a.code == 301 && (strings.Contains(p, "//") || strings.Contains(p, "/.")), "another request is answered with an error")
		vf.Assert(hasA && hasB && late == 0 && w.hc.Config() == before, "another request has no effect")
		vf.Reach("none")
		return
	}
	if strings.Contains(p, "//") || strings.Contains(p, "/.") {
		// only possible below the key list: the client is sent to the clean path
		return
	}
	vf.Assert((late == 1) == (match == 5 || match == 6) && late < 2, "a registered route is served")
	vf.Assert((ttl == "9s") == (match == 2), "exactly an update changes the configuration")
	vf.Assert(hasA == (match != 3 && match != 4 && match != 7), "exactly invalidations remove an item")
	vf.Assert(hasB == (match != 4), "only flushing removes the other item")
	body := string(a.body)
	switch match {
	case 0:
		vf.Assert(a.code == 200 && (body == "[\"a\",\"b\"]\n" || body == "[\"b\",\"a\"]\n"), "the keys are listed")
		vf.Assert(a.h.Get("Content-Type") == "application/json", "the keys are JSON")
	case 1:
		vf.Assert(a.code == 200 && strings.Contains(body, "\"default_ttl\":\"7s\""), "the configuration is shown")
		vf.Assert(a.h.Get("Content-Type") == "application/json", "the configuration is JSON")
	case 5, 6:
		vf.Assert(a.code == 202, "a registered route answers")
	default:
		vf.Assert(a.code == 200, "the operation succeeds")
	}
	vf.Reach("found")
}
