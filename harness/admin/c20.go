package admin

import (
	"context"
	"encoding/json"
	"errors"
	"io"
	"net/http"
	"strings"
	"time"

	"github.com/kacheio/kache/pkg/cache"
	"github.com/kacheio/kache/pkg/cluster"
	"github.com/kacheio/kache/pkg/config"
	"github.com/kacheio/kache/pkg/provider"
	vf "github.com/kacheio/kache/zzvf/vf"
)

// faulty is a provider that fails to remove items if told so, or if nobody
// waits for it any more.
type faulty struct {
	provider.Provider
	fail bool
}

func (f *faulty) Purge(ctx context.Context, p string) error {
	if f.fail {
		return errors.New("unreachable")
	}
	if err := ctx.Err(); err != nil {
		return err
	}
	return f.Provider.Purge(ctx, p)
}

func (f *faulty) Flush(ctx context.Context) error {
	if f.fail {
		return errors.New("unreachable")
	}
	if err := ctx.Err(); err != nil {
		return err
	}
	return f.Provider.Flush(ctx)
}

// sent is a message to the other nodes.
type sent struct {
	port, method, path, body string
	h                        http.Header
}

// conn is a cluster connection that records what is sent.
type conn struct{ msgs []sent }

func (c *conn) Endpoints(string) []cluster.Endpoint { return nil }
func (c *conn) Close()                              {}
func (c *conn) Broadcast(r *http.Request, port, method, path string) {
	b, err := io.ReadAll(r.Body)
	vf.Assert(err == nil, "the message is readable")
	c.msgs = append(c.msgs, sent{port, method, path, string(b), r.Header.Clone()})
}

// node is a kache with an API in a cluster.
type node struct {
	*world
	f *faulty
	c *conn
}

func newNode(prefix string, layered, clustered bool) *node {
	n := &node{world: &world{}}
	n.f = &faulty{Provider: memory()}
	n.pd = n.f
	n.cfg = &config.Configuration{API: &config.API{Prefix: prefix}, HttpCache: &cache.HttpCacheConfig{Strict: true, DefaultTTL: "7s"},
		Provider: &provider.ProviderBackendConfig{Layered: layered}}
	n.start()
	if clustered {
		n.c = &conn{}
		n.srv.VFSetCluster(n.c)
	}
	return n
}

func (n *node) sent() []sent {
	if n.c == nil {
		return nil
	}
	return n.c.msgs
}

// deliver hands a message to another node as the broadcast does.
func (n *node) deliver(m sent) *rec {
	r := request(m.method, m.path)
	r.Header = m.h.Clone()
	r.Header.Set("X-Kache-Cluster", "Broadcast")
	r.Body = body(m.body)
	return do(n.api, r)
}

// purged: does the pattern (with at most two stars) match the key?
func purged(pat, key string) bool {
	if pat == "" {
		return true
	}
	i := strings.IndexByte(pat, '*')
	if i < 0 {
		return pat == key
	}
	if len(key) < i || pat[:i] != key[:i] {
		return false
	}
	rest := pat[i+1:]
	for k := i; k <= len(key); k++ {
		if rest == "" && k == len(key) || rest != "" && purged(rest, key[k:]) {
			return true
		}
	}
	return false
}

// gone is the request, possibly by a client that does not wait for the answer.
func gone(r *http.Request) *http.Request {
	if !vf.Bool("gone") {
		return r
	}
	ctx, cancel := context.WithCancel(context.Background())
	cancel()
	return r.WithContext(ctx)
}

// PURGE removes exactly the matching items on every node of a layered cluster,
// DELETE on the node itself; each message reaches the other node's API and is
// not sent on.
//
// Bounds: patterns of up to two symbolic characters incl. *; three items;
// clustered or not, layered or not; four API prefixes; removal failing or not;
// a client that waits for the answer or not.
//
//vf:time=60
func C20_Purge() {
	prefix := [...]string{"", "/x", "x", "x/"}[vf.Choose("prefix", 4)]
	base := map[string]string{"": "/api"}[prefix]
	if base == "" {
		base = "/x"
	}
	layered, clustered := vf.Bool("layered"), vf.Bool("clustered")
	n, peer := newNode(prefix, layered, clustered), newNode(prefix, layered, clustered)
	keys := []string{"a", "ab", "b"}
	n.set(keys...)
	peer.set(keys...)
	pat := vf.String("pattern", vf.Choose("len", 3), "abc*.")
	n.f.fail = vf.Bool("fail")
	var r *http.Request
	local := vf.Bool("local")
	if local {
		r = request("DELETE", base+"/cache/invalidate")
	} else {
		r = request("PURGE", "/")
	}
	if pat != "" || vf.Bool("given") {
		r.Header.Set("X-Purge-Key", pat)
	}
	r = gone(r)
	w := do(n.api, r)
	check := func(n *node, ran bool) {
		for _, k := range keys {
			vf.Assert(n.has(k) == !(ran && purged(pat, k)), "exactly the matching items are removed")
		}
	}
	msgs := n.sent()
	if n.f.fail {
		vf.Assert(w.code == 404, "a failed removal is reported")
		vf.Assert(len(msgs) == 0, "a failed removal is not sent to other nodes")
		check(n, false)
		vf.Reach("failed")
		return
	}
	vf.Assert(w.code == 200, "a removal succeeds")
	check(n, true)
	if local || !layered || !clustered {
		vf.Assert(len(msgs) == 0, "nothing is sent to other nodes")
		vf.Reach("local")
		return
	}
	vf.Assert(len(msgs) == 1, "one message is sent to other nodes")
	vf.Assert(msgs[0].port == "api", "the message is sent to the API")
	check(peer, false)
	vf.Assert(peer.deliver(msgs[0]).code == 200, "another node accepts the message")
	check(peer, true)
	vf.Assert(len(peer.sent()) == 0, "another node does not send the message on")
	vf.Reach("sent")
}

// Flushing removes everything; the key list is complete.
//
// Bounds: up to two items, the first with a symbolic printable character in
// its key; removal failing or not; a client that waits for the answer or
// not.
//
//vf:time=60
func C20_KeysFlush() {
	n := newNode("", vf.Bool("layered"), vf.Bool("clustered"))
	k := "k" + vf.String("key", 1, "!-~")
	var keys []string
	switch vf.Choose("items", 3) {
	case 1:
		keys = []string{k}
	case 2:
		keys = []string{k, "other"}
	}
	n.set(keys...)
	list := func() []string {
		w := do(n.api, request("GET", "/api/cache/keys"))
		vf.Assert(w.code == 200 && w.h.Get("Content-Type") == "application/json", "the keys are listed as JSON")
		var got []string
		vf.Assert(json.Unmarshal(w.body, &got) == nil, "the keys are valid JSON")
		return got
	}
	got := list()
	vf.Assert(len(got) == len(keys), "every key is listed once")
	for _, x := range keys {
		found := 0
		for _, y := range got {
			if x == y {
				found++
			}
		}
		vf.Assert(found == 1, "every key is listed once")
	}
	n.f.fail = vf.Bool("fail")
	w := do(n.api, gone(request("DELETE", "/api/cache/flush")))
	if n.f.fail {
		vf.Assert(w.code == 404, "a failed flush is reported")
		vf.Assert(len(list()) == len(keys), "a failed flush removes nothing")
		vf.Reach("failed")
		return
	}
	vf.Assert(w.code == 200, "a flush succeeds")
	for _, x := range keys {
		vf.Assert(!n.has(x), "a flush removes everything")
	}
	vf.Assert(len(list()) == 0, "nothing is listed afterwards")
	vf.Reach("flushed")
}

// settings is a document for a configuration update and what it means.
type settings struct {
	text    string
	valid   bool
	strict  bool
	ttl     time.Duration
	sec     string
	xname   string
	rules   bool
	marks   bool
	headers bool
}

func anySettings(t string) settings {
	s := settings{valid: true, strict: true, ttl: 120 * time.Second, xname: "X-Kache"}
	switch vf.Choose(t, 10) {
	case 0:
		x := "1" + vf.String(t+"ttl", 1, "0-9")
		s.text, s.ttl = "default_ttl: "+x+"s\n", time.Duration(int(x[0]-'0')*10+int(x[1]-'0'))*time.Second
		s.sec = x + "s"
	case 1:
		s.text, s.strict = "strict: false\n", false
	case 2:
		s.text, s.strict, s.xname, s.marks = "{\"strict\": false, \"x_header\": true, \"x_header_name\": \"X-N\"}", false, "X-N", true
	case 3:
		s.text, s.headers = "default_cache_control: max-age=5\nforce_cache_control: true\n", true
	case 4:
		s.text, s.rules = "timeouts:\n  - path: ^/a\n    ttl: 7s\nexclude:\n  path: [\"^/b\"]\n  header: {x_h: v}\n  content:\n    - type: image/.*\n      size: 5\n", true
	case 5: // wrong type after a valid field
		s.text, s.valid = "strict: false\ntimeouts: 5\n", false
	case 6: // syntax error
		s.text, s.valid = "strict: false\n default_ttl: 1s\n", false
	case 7: // nothing
		s.text, s.valid = "", false
	case 8: // not a mapping
		s.text, s.valid = "- 5\n", false
	case 9: // broken JSON
		s.text, s.valid = "{\"strict\": false", false
	}
	return s
}

func (s settings) check(c *cache.HttpCache) {
	vf.Assert(c.Strict() == s.strict, "the mode is the given one, else strict")
	vf.Assert(c.DefaultTTL() == s.ttl, "the time to live is the given one, else the default")
	vf.Assert(c.XCacheHeader() == s.xname && c.MarkCachedResponses() == s.marks, "the debugging header is the given one, else none")
	vf.Assert(c.ForceCacheControl() == s.headers && c.DefaultCacheControl() == map[bool]string{true: "max-age=5"}[s.headers], "the header settings are the given ones")
	ttl := s.ttl
	if s.rules {
		ttl = 7 * time.Second
	}
	vf.Assert(c.PathTTL("/a") == ttl, "the timeouts are the given ones")
	vf.Assert(c.IsExcludedPath("/b") == s.rules && !c.IsExcludedPath("/a") && c.IsExcludedHeader(http.Header{"X-H": {"v"}}) == s.rules &&
		c.IsExcludedContent("image/png", 6) == s.rules && !c.IsExcludedContent("image/png", 5),
		"the exclusions are the given ones")
}

// An update replaces the settings by exactly the given ones on every node of a
// cluster and is not sent on by others; an invalid one changes nothing.
//
// Bounds: two updates of ten kinds each, valid and invalid, with a symbolic
// time to live; clustered or not; sent by a client or by another node.
//
//vf:time=60
func C20_Update() {
	clustered, layered := vf.Bool("clustered"), vf.Bool("layered")
	n, peer := newNode("/x", layered, clustered), newNode("/x", layered, clustered)
	cur := settings{valid: true, strict: true, ttl: 7 * time.Second, sec: "7s", xname: "X-Kache"}
	pcur := cur
	for i := 0; i < 2; i++ {
		s := anySettings([...]string{"first", "second"}[i])
		r := request("PUT", "/x/cache/config/update")
		r.Body = body(s.text)
		other := vf.Bool("other")
		if other {
			r.Header.Set("X-Kache-Cluster", "Broadcast")
		}
		before := len(n.sent())
		w := do(n.api, r)
		msgs := n.sent()[before:]
		if !s.valid {
			vf.Assert(w.code == 400, "an invalid update is reported")
			vf.Assert(len(msgs) == 0, "an invalid update is not sent to other nodes")
			vf.Reach("invalid")
		} else {
			vf.Assert(w.code == 200, "a valid update succeeds")
			cur = s
			if clustered && !other {
				vf.Assert(len(msgs) == 1 && msgs[0].port == "api", "a client's update is sent to other nodes")
				vf.Assert(peer.deliver(msgs[0]).code == 200, "another node accepts the update")
				vf.Assert(len(peer.sent()) == 0, "another node does not send the update on")
				pcur = s
				vf.Reach("sent")
			} else {
				vf.Assert(len(msgs) == 0, "another node's update is not sent on")
			}
			vf.Reach("valid")
		}
		cur.check(n.hc)
		pcur.check(peer.hc)
		g := do(n.api, request("GET", "/x/cache/config"))
		vf.Assert(g.code == 200 && g.h.Get("Content-Type") == "application/json", "the settings are shown as JSON")
		text := string(g.body)
		strict := "\"strict\":false"
		if cur.strict {
			strict = "\"strict\":true"
		}
		vf.Assert(strings.Contains(text, strict) && strings.Contains(text, "\"default_ttl\":\""+cur.sec+"\""), "the settings in use are shown")
	}
}

// The size of an update does not matter.
//
// Bounds: updates of 1 kB to 300 kB, the setting with a symbolic value in their
// last line.
//
//vf:time=60
func C20_Long() {
	n, peer := newNode("", true, true), newNode("", true, true)
	x := "1" + vf.String("ttl", 1, "0-9")
	r := request("PUT", "/api/cache/config/update")
	r.Body = body("strict: false\n" + strings.Repeat("# "+strings.Repeat("-", 97)+"\n", [...]int{10, 80, 700, 3000}[vf.Choose("lines", 4)]) + "default_ttl: " + x + "s\n")
	vf.Assert(do(n.api, r).code == 200, "a long update succeeds")
	msgs := n.sent()
	vf.Assert(len(msgs) == 1 && peer.deliver(msgs[0]).code == 200, "another node gets it as well")
	want := settings{ttl: time.Duration(int(x[0]-'0')*10+int(x[1]-'0')) * time.Second, xname: "X-Kache"}
	want.check(n.hc)
	want.check(peer.hc)
	vf.Reach("done")
}

// An update whose body cannot be read changes nothing.
//
// Bounds: a body that fails after a valid beginning.
//
//vf:time=60
func C20_Truncated() {
	n := newNode("", true, true)
	r := request("PUT", "/api/cache/config/update")
	r.Body = io.NopCloser(io.MultiReader(strings.NewReader("strict: false\n"[:vf.Choose("len", 15)]), bad{}))
	w := do(n.api, r)
	vf.Assert(w.code == 400, "a truncated update is reported")
	vf.Assert(n.hc.Strict() && n.hc.DefaultTTL() == 7*time.Second && len(n.sent()) == 0, "a truncated update changes nothing")
	vf.Reach("truncated")
}

type bad struct{}

func (bad) Read([]byte) (int, error) { return 0, io.ErrUnexpectedEOF }
