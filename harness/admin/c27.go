package admin

import (
	"context"
	"encoding/json"
	"errors"
	"net"
	"net/http"
	"os"
	"path"
	"strings"
	"sync"
	"syscall"
	"time"

	"github.com/kacheio/kache/pkg/config"
	"github.com/kacheio/kache/pkg/kache"
	"github.com/kacheio/kache/pkg/server/middleware"
	"github.com/kacheio/kache/zzvf/program"
	vf "github.com/kacheio/kache/zzvf/vf"
	"github.com/prometheus/client_golang/prometheus"
	"github.com/rs/zerolog"
)

// idle is a network listener that nobody connects to.
type idle struct {
	addr string
	done chan struct{}
	once sync.Once
	up   bool // connections are accepted
}

func (l *idle) Accept() (net.Conn, error) {
	l.up = true
	<-l.done
	return nil, net.ErrClosed
}

func (l *idle) Close() error {
	l.once.Do(func() { close(l.done) })
	l.up = false
	return nil
}

func (l *idle) Addr() net.Addr { return &net.TCPAddr{IP: net.IP{127, 0, 0, 1}, Port: 1} }

var (
	opened []*idle
	inUse  string // address that cannot be opened
)

func fakeNetListen(network, addr string) (net.Listener, error) {
	if addr == inUse {
		return nil, errors.New("address already in use")
	}
	vf.Assert(network == "tcp", "listeners are opened for TCP")
	l := &idle{addr: addr, done: make(chan struct{})}
	opened = append(opened, l)
	return l, nil
}

type rtf func(*http.Request) (*http.Response, error)

func (f rtf) RoundTrip(r *http.Request) (*http.Response, error) { return f(r) }

// start does what the program does before it runs the service.
func start(path string) (*kache.Kache, error) {
	l, err := config.NewLoader(path, false, 0)
	if err != nil {
		return nil, err
	}
	if err := l.Config().Validate(); err != nil {
		return nil, err
	}
	return kache.New(l, prometheus.NewRegistry())
}

// A file that misses a section that is needed, or has one that cannot be used,
// is rejected with an error; any other leads to a service with the settings of
// the file.
//
// Bounds: files made of two or more ways to write each section, or with one section
// (thorough: any two) wrong in one of the ways below; symbolic characters in addresses,
// paths, access control list, and sizes.
//
//vf:time=100 noreplay replace=net.Listen->fakeNetListen
func C27_File() {
	opened, inUse = nil, ""
	d := vf.String("digit", 1, "1-9")
	h := vf.String("letter", 1, "xyz")
	bad1 := vf.Choose("wrong", 7)
	bad2 := 0
	if vf.Thorough() && bad1 > 0 {
		bad2 = vf.Choose("wrong too", bad1+1)
	}
	valid := bad1 == 0
	pick := func(n int, good, bad []string) int {
		if n == bad1 || n == bad2 {
			i := vf.Choose("bad", len(bad))
			vf.Reach("bad" + string(rune('0'+n)))
			return len(good) + i
		}
		if !valid && !vf.Thorough() {
			return 0
		}
		return vf.Choose("good", len(good))
	}
	text := ""
	add := func(n int, good, bad []string) int {
		i := pick(n, good, bad)
		if i < len(good) {
			text += good[i]
		} else {
			text += bad[i-len(good)]
		}
		return i
	}
	ls := add(1,
		[]string{"listeners:\n  web: {addr: \"" + h + ":8" + d + "\"}\n", "listeners:\n  web: {addr: \":80\"}\n  other: {addr: \"" + h + ":8" + d + "\"}\n"},
		[]string{"", "listeners:\n", "listeners: {}\n", "listeners:\n  web:\n", "listeners:\n  web: {addr: \":80\"}\n  other:\n", "listeners:\n  web: {adr: \":80\"}\n",
			"listeners:\n  web: {addr: \":80\"}\n  other: {addr: \"used:1\"}\n",
			"listeners:\n  a: {addr: \"used:1\"}\n  b: {addr: \":80\"}\n  c: {addr: \":81\"}\n",
			"listeners:\n  a: {addr: \":80\"}\n  b: {addr: \":81\"}\n  c: {addr: \"used:1\"}\n"})
	inUse = "used:1"
	us := add(2,
		[]string{"upstreams:\n  - {name: a, addr: \"http://up" + h + ":80" + d + "\", path: \"/p" + h + "\"}\n  - {name: b, addr: \"https://other\"}\n",
			"upstreams:\n  - {name: a, addr: \"http://up" + h + ":80" + d + "\", path: \"/p" + h + "\"}\n"},
		[]string{"", "upstreams:\n", "upstreams: []\n", "upstreams: [null]\n", "upstreams:\n  - {addr: \"http://ok\", path: /}\n  -\n",
			"upstreams:\n  - {addr: \"http://up:p" + d + "\", path: /}\n", "upstreams:\n  - {addr: \"http://up\", path: \"p" + d + "\"}\n",
			"upstreams:\n  - {addr: \"http://ok\", path: /p}\n  - {addr: \"http://up\", path: \"/{" + d + "\"}\n",
			"upstreams:\n  - {addr: \"http://up\", path: /, port: 80}\n", "upstreams: {addr: \"http://up\", path: /}\n"})
	as := add(3,
		[]string{"api: {port: 6067}\n", "api:\n  port: 6067\n  prefix: xy/\n  acl: 10.0.0." + d + "\n  debug: true\n"},
		[]string{"", "api:\n", "api:\n  port: 6067\n  acl: 10.0.0.30" + d + "\n", "api: {port: 80x" + d + "}\n", "api: [6067]\n"})
	ps := add(4,
		[]string{"provider:\n  backend: inmemory\n", "provider:\n  backend: inmemory\n  inmemory:\n    max_size: 99000\n    max_item_size: " + d + "000\n"},
		[]string{"", "provider:\n", "provider: {}\n", "provider:\n  backend: " + h + "\n", "provider:\n  backend: inmemory\n  inmemory:\n    max_size: 5\n    max_item_size: " + d + "0\n",
			"provider:\n  backend: redis\n", "provider:\n  backend: inmemory\n  inmemory:\n    max_size: -" + d + "\n"})
	cs := add(5,
		[]string{"", "cache:\n  strict: false\n  default_ttl: " + d + "m\n"},
		[]string{"cache:\n  strict: " + d + "0m\n", "cache:\n  strct: false\n"})
	add(6,
		[]string{"", "cluster:\n", "logging:\n  level: debug\n"},
		[]string{"cluster: {}\n", "cluster:\n  discovery: " + h + "\n", "logging:\n  lvl: debug\n", "logs:\n  level: debug\n", "x" + d + "\n"})
	k, err := start(vf.SetFile("k.yml", text))
	if !valid {
		vf.Assert(err != nil && k == nil, "a config that cannot be used is rejected")
		return
	}
	vf.Assert(err == nil && k != nil, "a valid config is accepted")

	// Listeners
	vf.Assert(len(opened) == 1+ls, "each listener is opened once")
	found := 0
	for _, l := range opened {
		if l.addr == h+":8"+d || ls == 1 && l.addr == ":80" {
			found++
		}
	}
	vf.Assert(found == 1+ls && (ls == 0 || opened[0].addr != opened[1].addr), "listeners are opened where configured")

	// Upstreams
	var sent []string
	middleware.VFSetOrigin(k.Server.VFTransport(), rtf(func(r *http.Request) (*http.Response, error) {
		sent = append(sent, r.URL.String())
		return &http.Response{StatusCode: 200, Proto: "HTTP/1.1", ProtoMajor: 1, ProtoMinor: 1, Header: http.Header{}, Body: http.NoBody, Request: r}, nil
	}))
	code := do(k.Server, request("GET", "/p"+h+"/x")).code
	vf.Assert(code == 200 && len(sent) == 1 && sent[0] == "http://up"+h+":80"+d+"/p"+h+"/x", "requests go to the upstream of their path")
	code = do(k.Server, request("GET", "/q")).code
	if us == 0 {
		vf.Assert(code == 200 && len(sent) == 2 && sent[1] == "https://other/q", "an upstream without path is for all paths")
	} else {
		vf.Assert(code == 503 && len(sent) == 1, "other requests go nowhere")
	}

	// API
	prefix := "/api"
	if as == 1 {
		prefix = "/xy"
	}
	r := request("GET", prefix+"/cache/config")
	code = do(k.API, r).code
	if as == 1 {
		vf.Assert(code == 401, "the access control list is in use")
		r = request("GET", prefix+"/cache/config")
		r.RemoteAddr = "10.0.0." + d + ":1"
		code = do(k.API, r).code
	}
	vf.Assert(code == 200, "the API is available at its prefix")
	r = request("GET", "/debug/pprof/cmdline")
	r.RemoteAddr = "10.0.0." + d + ":1"
	vf.Assert((do(k.API, r).code == 200) == (as == 1), "debug routes exist if configured")

	// Provider
	pd := *k.Provider
	pd.Set("k", make([]byte, 50), time.Hour)
	vf.Assert(pd.Get(context.Background(), "k") != nil, "items are kept")
	pd.Set("l", make([]byte, 1000*int(d[0]-'0')+1), time.Hour)
	vf.Assert((pd.Get(context.Background(), "l") == nil) == (ps == 1), "items larger than configured are not kept")

	// Cache
	ttl := 120 * time.Second
	if cs == 1 {
		ttl = time.Duration(d[0]-'0') * time.Minute
	}
	vf.Assert(k.Cache.Strict() == (cs == 0) && k.Cache.DefaultTTL() == ttl, "the cache settings are those of the file")
	vf.Reach("valid")
}

// The service waits for the signals to end, serves all listeners until then,
// and ends.
//
// Bounds: one or two listeners; the end at any time up to 1000 s after the start.
//
//vf:time=60 noreplay replace=os/signal.Notify->fakeNotify,os/signal.NotifyContext->fakeStopContext,net/http.ListenAndServe->fakeListen,net.Listen->fakeNetListen
func C27_Run() {
	opened, inUse, stopSigs = nil, "", nil
	hup, hupSigs, served, stopRun = nil, nil, nil, nil
	text := confHead + "listeners:\n  a: {addr: \":80\"}\n"
	if vf.Bool("two") {
		text += "  b: {addr: \":81\"}\n"
	}
	k, err := start(vf.SetFile("k.yml", text))
	vf.Assert(err == nil, "the service is created")
	ended := false
	go func() {
		vf.Assert(k.Run() == nil, "the service ends without error")
		ended = true
	}()
	vf.Wait()
	vf.Advance(time.Duration(vf.Int("when", 1e9, 1000e9)))
	vf.Wait()
	vf.Assert(!ended && served != nil, "the service runs")
	vf.Assert(len(stopSigs) == 2 && (stopSigs[0] == syscall.SIGTERM && stopSigs[1] == syscall.SIGINT || stopSigs[0] == syscall.SIGINT && stopSigs[1] == syscall.SIGTERM),
		"it waits for the signals to end")
	for _, l := range opened {
		vf.Assert(l.up, "each listener is served")
	}
	begun := time.Now()
	stopRun()
	vf.Wait()
	vf.Assert(ended && time.Since(begun) == 0, "an idle service ends at once")
	for _, l := range opened {
		vf.Assert(!l.up, "each listener is closed")
	}
	vf.Reach("done")
}

var stopSigs []os.Signal

func fakeStopContext(ctx context.Context, sig ...os.Signal) (context.Context, context.CancelFunc) {
	stopSigs = sig
	return fakeNotifyContext(ctx, sig...)
}

// listened is the address the API listens on.
var listened string

func anyListen(addr string, h http.Handler) error {
	listened, served = addr, h
	select {}
}

// The API is found at the configured port below the configured prefix, and only there.
//
// Bounds: prefixes of up to three characters (slash or a), two digits of the
// port; debug routes or not.
//
//vf:time=60 noreplay replace=net.Listen->fakeNetListen,net/http.ListenAndServe->anyListen
func C27_API() {
	opened, inUse, listened, served = nil, "", "", nil
	port := "8" + vf.String("port", 2, "078")
	text := "listeners:\n  a: {addr: \":80\"}\nupstreams:\n  - {addr: \"http://up\"}\nprovider: {backend: inmemory}\napi:\n  port: " + port + "\n"
	prefix := vf.String("prefix", vf.Choose("len", 4), "/a")
	debug := vf.Bool("debug")
	if debug {
		text += "  debug: true\n"
	}
	if prefix != "" || vf.Bool("empty") {
		text += "  prefix: \"" + prefix + "\"\n"
	}
	k, err := start(vf.SetFile("k.yml", text))
	vf.Assert(err == nil, "the configuration is accepted")
	go k.API.Run()
	vf.Wait()
	vf.Assert(listened == ":"+port && served != nil, "the API listens on the configured port")
	at := "/api"
	if prefix != "" {
		at = path.Clean("/" + prefix)
	}
	for _, p := range [...]string{"/", "/api", "/a", "/aa", "/aaa", "/a/a"} {
		ok := p == at
		code := do(served, request("GET", path.Join(p, "/cache/config"))).code
		vf.Assert((code == 200) == ok, "the API is available at its prefix only")
		code = do(served, request("DELETE", path.Join(p, "/cache/flush"))).code
		vf.Assert((code == 200) == ok, "all of the API is")
	}
	vf.Assert((do(served, request("GET", "/debug/pprof/cmdline")).code == 200) == debug, "debug routes exist if configured")
	vf.Assert(do(served, request("GET", "/version")).code == 200, "the version is available")
	vf.Reach("done")
}

// Requests are sent to the upstream as it is written in the file.
//
// Bounds: nine ways to write an address with a symbolic character, with or without a path.
//
//vf:time=60 noreplay replace=net.Listen->fakeNetListen
func C27_Upstream() {
	opened, inUse = nil, ""
	x := vf.String("x", 1, "1-3")
	addrs := [...][2]string{{"http://up" + x, ""}, {"http://up:8" + x, ""}, {"https://up" + x, ""}, {"https://10.0.0." + x + ":44", ""},
		{"http://[::" + x + "]:80", ""}, {"http://up" + x + "/", "http://up" + x}, {"HTTP://up" + x, "http://up" + x}, {"http://UP" + x, ""}, {"http://a.b-c.d" + x + ".e:65535", ""}}
	a := addrs[vf.Choose("addr", len(addrs))]
	if a[1] == "" {
		a[1] = a[0]
	}
	text := "listeners:\n  a: {addr: \":80\"}\nupstreams:\n  - {name: n, addr: \"" + a[0] + "\"}\n"
	path := "/any"
	if vf.Bool("path") {
		path = "/p" + x
		text = text[:len(text)-2] + ", path: \"" + path + "\"}\n"
	}
	k, err := start(vf.SetFile("k.yml", text+"provider: {backend: inmemory}\napi: {port: 6067}\n"))
	vf.Assert(err == nil, "the configuration is accepted")
	sent := ""
	middleware.VFSetOrigin(k.Server.VFTransport(), rtf(func(r *http.Request) (*http.Response, error) {
		sent = r.URL.String()
		return &http.Response{StatusCode: 200, Proto: "HTTP/1.1", ProtoMajor: 1, ProtoMinor: 1, Header: http.Header{}, Body: http.NoBody, Request: r}, nil
	}))
	code := do(k.Server, request("GET", path+"/x")).code
	vf.Assert(code == 200 && sent == a[1]+path+"/x", "requests go to the upstream as configured")
	vf.Reach("done")
}

// exited is the program's exit status, -1 while it runs.
var exited int

func fakeExit(code int) {
	exited = code
	select {}
}

func fakeFatal() *zerolog.Event {
	fakeExit(1)
	return nil
}

// apiErr is the error of the API's listener.
var apiErr error

func maybeListen(addr string, h http.Handler) error {
	if apiErr != nil {
		return apiErr
	}
	return fakeListen(addr, h)
}

func fakePrint(string) string { return "" }

// The program reads the file it is told to, watches it if told so in the given
// interval, and ends with an error if it cannot use it.
//
// Bounds: the flags in four notations; files of fourteen kinds, missing, or without a section that is
// needed; an API port that cannot be opened; unknown flags and invalid values; five watch intervals;
// one change of the file, at most 40 s before it is looked at.
//
//vf:time=60 noreplay replace=os/signal.Notify->fakeNotify,os/signal.NotifyContext->fakeStopContext,net/http.ListenAndServe->maybeListen,net.Listen->fakeNetListen,os.Exit->fakeExit,github.com/rs/zerolog/log.Fatal->fakeFatal,github.com/kacheio/kache/pkg/utils/version.Print->fakePrint
func C27_Main() {
	opened, inUse, stopSigs, exited = nil, "", nil, -1
	hup, hupSigs, served, stopRun = nil, nil, nil, nil
	flags := vf.Choose("flags", 8)
	d := ttlDoc("4")
	if flags == 0 {
		d = anyDoc("first")
	}
	name, web := "other.yml", "listeners:\n  a: {addr: \":80\"}\n"
	if vf.Bool("default") {
		name = "kache.yml"
	}
	ok := d.valid && strings.HasPrefix(d.text, confHead)
	apiErr = nil
	switch vf.Choose("file", 5) {
	case 4:
		vf.SetFile(name, web+ttlDoc("2").text)
		apiErr = errors.New("address already in use")
		ok = false
	case 1:
		vf.SetFile("unrelated.yml", ttlDoc("2").text)
		ok = false
	case 2:
		vf.SetFile(name, web+strings.Replace(ttlDoc("2").text, "backend: inmemory", "backend: none", 1))
		ok = false
	case 3:
		vf.SetFile(name, web)
		ok = false
	default:
		vf.SetFile(name, web+d.text)
	}
	args := []string{"kache"}
	flag := func(name, value string) {
		if len(args) > 1 {
			args = append(args, "-"+name, value)
			return
		}
		switch vf.Choose("notation", 4) {
		case 0:
			args = append(args, "-"+name, value)
		case 1:
			args = append(args, "--"+name, value)
		case 2:
			args = append(args, "-"+name+"="+value)
		case 3:
			args = append(args, "--"+name+"="+value)
		}
	}
	if name != "kache.yml" {
		flag("config.file", [...]string{"", "/vf/"}[vf.Choose("path", 2)]+name)
	}
	watch, every := false, int64(10)
	version := false
	switch flags {
	case 1:
		args = append(args, "-config.auto-reload")
		watch = true
	case 2:
		args = append(args, "-config.auto-reload=true")
		every = int64([...]int{-1, 0, 1, 7, 20}[vf.Choose("interval", 5)])
		watch = true
		flag("config.watch-interval", vf.Dec(every)+"s")
		ok = ok && every > 0
	case 3:
		flag("config.watch-interval", "5s")
	case 4:
		flag("config.watch-interval", "5")
		ok = false
	case 5:
		flag("config.fil", "x")
		ok = false
	case 6:
		args = append(args, "-version")
		version = true
	case 7:
		args = append(args, "-config.auto-reload=false")
	}
	os.Args = args
	ended := false
	go func() {
		program.Main()
		ended = true
	}()
	vf.Advance(time.Second)
	vf.Wait()
	if version {
		vf.Assert(ended && exited <= 0 && len(opened) == 0 && served == nil, "the version is shown, nothing else happens")
		vf.Reach("version")
		return
	}
	if !ok {
		vf.Assert(exited > 0 && served == nil, "a configuration that cannot be used ends the program with an error")
		for _, l := range opened {
			vf.Assert(!l.up || apiErr != nil, "nothing is served")
		}
		vf.Reach("rejected")
		return
	}
	vf.Assert(exited == -1, "the service does not end with an error")
	vf.Assert(!ended, "the service does not end")
	vf.Assert(served != nil && len(opened) == 1, "the service runs")
	ttl := func() string {
		r := do(served, request("GET", "/x/cache/config"))
		vf.Assert(r.code == 200, "the settings are shown")
		var c struct {
			TTL string `json:"default_ttl"`
		}
		vf.Assert(json.Unmarshal(r.body, &c) == nil, "the settings are shown as JSON")
		return c.TTL
	}
	vf.Assert(ttl() == d.sec, "the file is in use")
	next := ttlDoc("9")
	vf.SetFile(name, web+next.text)
	after := vf.Int("after", 1, 40)
	vf.Advance(time.Duration(after) * time.Second)
	vf.Wait()
	got := ttl()
	if watch && after > every {
		vf.Assert(got == next.sec, "a watched file is put into use within the interval")
		vf.Reach("watched")
	} else if !watch {
		vf.Assert(got == d.sec, "a file that is not watched stays as it is")
		vf.Reach("unwatched")
	}
	stopRun()
	vf.Wait()
	vf.Assert(ended && exited == -1, "the program ends without error when told so")
}
