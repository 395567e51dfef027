package admin

import (
	"net/http"
	"strconv"
	"strings"

	"github.com/kacheio/kache/pkg/api"
	"github.com/kacheio/kache/pkg/config"
	vf "github.com/kacheio/kache/zzvf/vf"
)

func allowed(f *api.IPFilter, r *http.Request) bool {
	ran := false
	w := do(f.Wrap(func(w http.ResponseWriter, r *http.Request) {
		ran = true
		w.WriteHeader(http.StatusAccepted)
	}), r)
	if ran {
		vf.Assert(w.code == http.StatusAccepted, "an allowed request gets the handler's response")
	} else {
		vf.Assert(w.code == http.StatusUnauthorized, "a denied request is answered with 401")
	}
	return ran
}

// addr is a symbolic IPv4 address.
func addr(t string) (string, [4]int64) {
	x, y := vf.String(t+"2", 2, "0-9"), vf.String(t+"3", 2, "0-9")
	n := func(s string) int64 { return 100 + 10*(int64(s[0])-'0') + int64(s[1]) - '0' }
	return "10.1.1" + x + ".1" + y, [4]int64{10, 1, n(x), n(y)}
}

// inNet: the first n bits of a and b agree.
func inNet(a, b [4]int64, n int) bool {
	r := true
	for i := 0; i < 4; i++ {
		k := n - 8*i
		if k <= 0 {
			break
		}
		if k > 8 {
			k = 8
		}
		sh := int64(1) << (8 - k)
		r = vf.And(r, a[i]/sh == b[i]/sh)
	}
	return r
}

// With a non-empty access control list exactly the listed addresses and
// networks are allowed; with an empty one everybody is.
//
// Bounds: lists of one address, one network of nine prefix lengths, or both in
// either order, with white space; the two low octets of every address any
// value from 100 to 199.
//
//vf:time=60
func C18_List() {
	l, la := addr("list")
	n, na := addr("net")
	bits := [...]int{0, 1, 8, 15, 17, 23, 24, 30, 32}
	k := bits[vf.Choose("bits", len(bits))]
	n += "/" + strconv.Itoa(k)
	c, ca := addr("client")
	r := request("GET", "/")
	r.RemoteAddr = c + ":6087"
	acl := ""
	want := false
	switch vf.Choose("list", 5) {
	case 0:
		acl, want = l, ca == la
	case 1:
		acl, want = n, inNet(ca, na, k)
	case 2:
		acl, want = l+", "+n, vf.Or(ca == la, inNet(ca, na, k))
	case 3:
		acl, want = n+" ,"+l+",", vf.Or(ca == la, inNet(ca, na, k))
	case 4:
		want = true
	}
	f, err := api.NewIPFilter(acl)
	vf.Assert(err == nil, "a valid list is accepted")
	got := allowed(f, r)
	vf.Assert(got == want, "exactly the listed addresses are allowed")
	if got {
		vf.Reach("allowed")
	} else {
		vf.Reach("denied")
	}
}

// The client address is the last one of all X-Forwarded-For lines, else
// X-Real-Ip, else the address of the connection (IPv4 or IPv6); whoever has
// none is denied.
//
// Bounds: every combination of the three sources with up to two header lines
// and two addresses per line; the last digit of every address symbolic; eleven special
// last addresses; with or without a preceding request on the same connection.
//
//vf:time=60
func C18_Source() {
	f, err := api.NewIPFilter("10.0.0.7,2001:db8::7")
	vf.Assert(err == nil, "a valid list is accepted")
	r := request("GET", "/")
	want := false
	switch vf.Choose("remote", 4) {
	case 0:
		d := vf.String("remote", 1, "0-9")
		r.RemoteAddr = "10.0.0." + d + ":1"
		want = d == "7"
	case 1:
		d := vf.String("remote", 1, "0-9a-f")
		r.RemoteAddr = "[2001:db8::" + d + "]:80"
		want = d == "7"
	case 2:
		r.RemoteAddr = ""
	case 3:
		r.RemoteAddr = "10.0.0.7" // no port: not a connection's address
		want = false
	}
	switch vf.Choose("real", 3) {
	case 1:
		d := vf.String("real", 1, "0-9")
		r.Header["X-Real-Ip"] = []string{"10.0.0." + d}
		want = d == "7"
	case 2:
		r.Header["X-Real-Ip"] = []string{"x"}
		want = false
	}
	d1, d2 := vf.String("fwd1", 1, "0-9"), vf.String("fwd2", 1, "0-9")
	a1, a2 := "10.0.0."+d1, "2001:db8::"+d2
	switch vf.Choose("forwarded", 9) {
	case 1:
		r.Header["X-Forwarded-For"] = []string{a1}
		want = d1 == "7"
	case 2:
		r.Header["X-Forwarded-For"] = []string{a1 + ", " + a2}
		want = d2 == "7"
	case 3:
		r.Header["X-Forwarded-For"] = []string{a2, a1}
		want = d1 == "7"
	case 4:
		r.Header["X-Forwarded-For"] = []string{a2 + "," + a1 + " ,"}
		want = d1 == "7"
	case 5:
		r.Header["X-Forwarded-For"] = []string{"10.0.0.7, unknown"}
		want = false
	case 6:
		r.Header["X-Forwarded-For"] = []string{"10.0.0.7", a2 + ", 10.0.0." + d1}
		want = d1 == "7"
	case 7:
		r.Header["X-Forwarded-For"] = []string{""}
	case 8:
		// Addresses that are special in some way are addresses nevertheless.
		special := [...]string{"127.0.0.1", "::1", "192.168.0.1", "fe80::1", "fc00::1", "169.254.0.1", "100.64.0.1", "0.0.0.0", "::", "224.0.0.1", "255.255.255.255"}
		r.Header["X-Forwarded-For"] = []string{"10.0.0.7, " + special[vf.Choose("special", len(special))]}
		want = false
	}
	if before := request("GET", "/"); vf.Bool("before") {
		// Somebody else used the same connection before.
		before.RemoteAddr = r.RemoteAddr
		before.Header["X-Forwarded-For"] = []string{[...]string{"10.0.0.7", "10.0.0.8", "x"}[vf.Choose("other", 3)]}
		allowed(f, before)
	}
	got := allowed(f, r)
	vf.Assert(got == want, "the last forwarded, else the real, else the connection's address decides")
	if got {
		vf.Reach("allowed")
	} else {
		vf.Reach("denied")
	}
}

// Malformed lists are rejected instead of allowing anybody.
//
// Bounds: lists of up to four symbolic characters over digits, dots, slashes,
// commas, colons and blanks; checked clients: four addresses.
//
//vf:time=60
func C18_Malformed() {
	n := 1 + vf.Choose("len", 4)
	acl := vf.String("acl", n, "0-9./,: ")
	f, err := api.NewIPFilter(acl)
	empty := true
	for i := 0; i < n; i++ {
		empty = vf.And(empty, acl[i] == ',')
	}
	if err != nil {
		vf.Reach("rejected")
		vf.Assert(vf.Not(empty), "an empty list is accepted")
		return
	}
	r := request("GET", "/")
	r.RemoteAddr = "192.0.2.1:1"
	if empty {
		vf.Reach("empty")
		vf.Assert(allowed(f, r), "an empty list allows everybody")
	} else {
		vf.Reach("accepted")
		vf.Assert(!allowed(f, r), "a list of other addresses allows nobody else")
	}
}

// Every route is guarded: a denied request gets 401, has no effect and learns
// nothing.
//
// Bounds: all routes incl. debugging routes and one registered later, default
// and configured prefix; denied or allowed client.
//
//vf:time=60
func C18_Routes() {
	prefix := [...]string{"", "/x"}[vf.Choose("prefix", 2)]
	w := newWorld(&config.API{Prefix: prefix, ACL: "192.0.2.0/24", Debug: true})
	ran := false
	w.api.RegisterRoute("POST", "/cache/config/reload", func(rw http.ResponseWriter, r *http.Request) {
		ran = true
		rw.WriteHeader(200)
	})
	w.set("a", "b")
	if prefix == "" {
		prefix = "/api"
	}
	routes := [...][2]string{
		{"GET", "/version"}, {"GET", "/metrics"}, {"GET", "/debug/vars"}, {"GET", "/debug/pprof/cmdline"}, {"GET", "/debug/pprof/"},
		{"PURGE", "/"}, {"GET", prefix + "/cache/keys"}, {"GET", prefix + "/cache/config"},
		{"PUT", prefix + "/cache/config/update"}, {"DELETE", prefix + "/cache/invalidate"},
		{"DELETE", prefix + "/cache/flush"}, {"POST", prefix + "/cache/config/reload"},
	}
	x := routes[vf.Choose("route", len(routes))]
	r := request(x[0], x[1], "X-Purge-Key", "a")
	r.RemoteAddr = "192.0.3." + vf.Dec(vf.Int("o", 0, 255)) + ":99"
	before := w.hc.Config()
	a := do(w.api, r)
	vf.Assert(a.code == 401, "a denied request is answered with 401")
	vf.Assert(string(a.body) == api.ErrMsgUnauthorized+"\n", "nothing is disclosed")
	vf.Assert(!ran && w.has("a") && w.has("b"), "a denied request has no effect")
	vf.Assert(w.hc.Config() == before, "a denied request does not change the config")
	vf.Reach("denied")
}

// Every item of a list counts, whatever other items precede it: networks that
// contain or overlap others, equal ones, addresses inside of networks.
//
// Bounds: two networks of five prefix lengths (thorough: three of nine) and an
// address, each IPv4 or one of them IPv6, in four orders; the two low octets of every
// IPv4 address any value from 100 to 199.
//
//vf:time=60 ttime=400
func C18_Several() {
	bits := []int{0, 15, 23, 24, 32}
	nets := 2
	if vf.Thorough() {
		bits = []int{0, 1, 8, 15, 17, 23, 24, 30, 32}
		nets = 3
	}
	six := vf.Bool("six")
	c, ca := addr("client")
	want := false
	var items []string
	for i := 0; i < nets; i++ {
		n, na := addr("net")
		k := bits[vf.Choose("bits", len(bits))]
		if six && i == 0 {
			n = "2001:db8::/" // contains no IPv4 address
		} else {
			n += "/"
			want = vf.Or(want, inNet(ca, na, k))
		}
		items = append(items, n+strconv.Itoa(k))
	}
	l, la := addr("list")
	want = vf.Or(want, ca == la)
	switch vf.Choose("order", 4) {
	case 0:
		items = append(items, l)
	case 1:
		items = append([]string{l}, items...)
	case 2:
		items[0], items[1] = items[1], items[0]
		items = append(items, l)
	case 3:
		items = []string{items[0], l, items[1]}
		if nets == 3 {
			return
		}
	}
	f, err := api.NewIPFilter(strings.Join(items, ","))
	vf.Assert(err == nil, "a valid list is accepted")
	r := request("GET", "/")
	r.RemoteAddr = c + ":6087"
	got := allowed(f, r)
	vf.Assert(got == want, "exactly the listed addresses are allowed")
	if six {
		r.RemoteAddr = "[2001:db8::1]:1"
		vf.Assert(allowed(f, r), "a listed IPv6 network is allowed")
		vf.Reach("six")
	}
	if got {
		vf.Reach("allowed")
	} else {
		vf.Reach("denied")
	}
}
