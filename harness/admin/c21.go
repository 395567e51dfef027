package admin

import (
	"context"
	"net/http"
	"os"
	"sync"
	"sync/atomic"
	"syscall"
	"time"

	"github.com/kacheio/kache/pkg/config"
	"github.com/kacheio/kache/pkg/kache"
	vf "github.com/kacheio/kache/zzvf/vf"
	"github.com/prometheus/client_golang/prometheus"
)

const confHead = `
api:
  port: 6067
  prefix: /x
provider:
  backend: inmemory
  inmemory:
    max_size: 1000000
    max_item_size: 1000
upstreams:
  - name: s
    addr: "http://up:8000"
    path: "/"
`

// doc is a config file and what it means.
type doc struct {
	text    string
	valid   bool
	missing bool
	rules   bool // timeouts and exclusions
	marks   bool // headers
	strict  bool
	ttl     time.Duration
	sec     string // time to live as written
	xname   string
}

// ttlDoc is a valid config with an individual time to live.
func ttlDoc(sec string) doc {
	n := time.Duration(0)
	for i := range sec {
		n = 10*n + time.Duration(sec[i]-'0')
	}
	return doc{text: confHead + "cache:\n  default_ttl: " + sec + "s\n", valid: true, strict: true, ttl: n * time.Second, sec: sec + "s", xname: "X-Kache"}
}

// anyDoc is one of many config files, valid or not.
func anyDoc(t string) doc {
	d := doc{valid: true, strict: true, ttl: 120 * time.Second, xname: "X-Kache"}
	switch vf.Choose(t, 14) {
	case 0:
		return ttlDoc(vf.String(t+"ttl", 2, "0-9"))
	case 1: // strict mode off
		d.text, d.strict = confHead+"cache:\n  strict: false\n", false
	case 2:
		d.text = confHead + "cache:\n  strict: true\n  x_header: true\n  default_cache_control: max-age=5\n  force_cache_control: true\n  x_header_name: X-Any"
		d.marks = true
		d.xname = "X-Any" + vf.String(t+"name", 1, "0-9")
		d.text += d.xname[5:] + "\n"
	case 3: // no cache section
		d.text = confHead
	case 4: // empty cache section
		d.text = confHead + "cache:\n"
	case 5: // unknown field
		d.text, d.valid = confHead+"cache:\n  default_ttl: 1s\n  stric: false\n", false
	case 6: // wrong type after a valid field
		d.text, d.valid = confHead+"cache:\n  strict: false\n  force_cache_control: [1]\n", false
	case 7: // syntax error
		d.text, d.valid = confHead+"cache:\n  strict: false\n default_ttl: 1s\n", false
	case 8: // empty file
		d.text, d.valid = "", false
	case 9: // truncated in the middle of a key
		d.text, d.valid = confHead+"cache:\n  strict: false\n  default_tt", false
	case 10: // unknown section
		d.text, d.valid = confHead+"cach:\n  strict: false\n", false
	case 11: // only a cache section
		d.text, d.strict, d.ttl = "cache: {strict: false, default_ttl: 9s}\n", false, 9*time.Second
		d.sec = "9s"
	case 13: // no file
		d.valid, d.missing = false, true
	case 12:
		d.text = confHead + "cache:\n  default_ttl: 3s\n  timeouts:\n    - path: ^/a\n      ttl: 7s\n  exclude:\n    path: [\"^/b\"]\n    header: {x_h: v}\n    content:\n      - type: image/.*\n        size: 5\n"
		d.ttl, d.sec, d.rules = 3*time.Second, "3s", true
	}
	return d
}

// put makes d the file called name.
func (d doc) put(name string) string {
	p := vf.SetFile(name, d.text)
	if d.missing {
		vf.RemoveFile(p)
	}
	return p
}

func (d doc) check(l *config.Loader) {
	c := l.Config()
	vf.Assert(c != nil, "there is a config")
	if c.HttpCache == nil {
		vf.Assert(d.strict && d.ttl == 120*time.Second && d.xname == "X-Kache", "a missing section means the defaults")
		return
	}
	vf.Assert(c.HttpCache.Strict == d.strict, "the loaded mode is that of the file, else strict")
	vf.Assert(c.HttpCache.DefaultTTL == d.sec, "the loaded time to live is that of the file")
	if d.xname != "X-Kache" {
		vf.Assert(c.HttpCache.XCacheName == d.xname, "the loaded header name is that of the file")
	} else {
		vf.Assert(c.HttpCache.XCacheName == "", "no header name is loaded")
	}
}

// A loader accepts exactly the valid files, tells whether the file changed,
// and keeps the last valid config otherwise.
//
// Bounds: three versions of a file, each of fourteen kinds (valid with
// different contents and symbolic numbers, unknown fields, wrong types, syntax errors, truncated,
// empty, missing).
//
//vf:time=60
func C21_Load() {
	first := anyDoc("first")
	path := first.put("c.yml")
	l, err := config.NewLoader(path, false, 0)
	if !first.valid {
		vf.Reach("rejected")
		vf.Assert(err != nil && l == nil, "an invalid file is rejected at start")
		return
	}
	vf.Assert(err == nil, "a valid file is accepted")
	first.check(l)
	cur := first
	n := 1
	if vf.Thorough() {
		n = 2
	}
	for i := 0; i < n; i++ {
		d := anyDoc([...]string{"second", "third"}[i])
		d.put("c.yml")
		before, sum := l.Config(), l.Checksum()
		changed, err := l.Load(context.Background())
		switch {
		case d.text == cur.text:
			vf.Reach("same")
			vf.Assert(err == nil && !changed, "an unchanged file is not reloaded")
			vf.Assert(l.Config() == before && l.Checksum() == sum, "an unchanged file changes nothing")
		case !d.valid:
			vf.Reach("invalid")
			vf.Assert(err != nil && !changed, "an invalid file is reported")
			vf.Assert(l.Config() == before && l.Checksum() == sum, "an invalid file leaves the config alone")
			cur.check(l)
			// It is reported again, and the previous file is still known.
			changed, err = l.Load(context.Background())
			vf.Assert(err != nil && !changed, "an invalid file is reported every time")
		default:
			vf.Reach("changed")
			vf.Assert(err == nil && changed, "a changed valid file is loaded")
			vf.Assert(l.Config() != before && l.Checksum() != sum, "there is a new config")
			d.check(l)
			cur = d
		}
	}
}

func newKache(text string) (*kache.Kache, *config.Loader) {
	path := vf.SetFile("k.yml", text)
	l, err := config.NewLoader(path, true, 10*time.Second)
	vf.Assert(err == nil, "the first file is valid")
	k, err := kache.New(l, prometheus.NewRegistry())
	vf.Assert(err == nil, "the service is created")
	return k, l
}

// checkLive: the cache in use behaves as the file says.
func (d doc) checkLive(k *kache.Kache) {
	vf.Assert(k.Cache.Strict() == d.strict, "the mode in use is that of the last valid file, else strict")
	vf.Assert(k.Cache.DefaultTTL() == d.ttl, "the time to live in use is that of the last valid file")
	vf.Assert(k.Cache.XCacheHeader() == d.xname, "the header name in use is that of the last valid file")
	c := k.Cache
	vf.Assert(c.MarkCachedResponses() == d.marks && c.ForceCacheControl() == d.marks && c.DefaultCacheControl() == map[bool]string{true: "max-age=5"}[d.marks],
		"the header settings in use are those of the last valid file")
	ttl := d.ttl
	if d.rules {
		ttl = 7 * time.Second
	}
	vf.Assert(c.PathTTL("/a") == ttl, "the timeouts in use are those of the last valid file")
	vf.Assert(c.IsExcludedPath("/b") == d.rules && !c.IsExcludedPath("/a") && c.IsExcludedHeader(http.Header{"X-H": {"v"}}) == d.rules &&
		c.IsExcludedContent("image/png", 6) == d.rules && !c.IsExcludedContent("image/png", 5) && !c.IsExcludedContent("text/css", 6),
		"the exclusions in use are those of the last valid file")
}

// A reload puts a changed valid file into use and nothing else; settings made
// through the API stay until the file changes.
//
// Bounds: a valid first file, a second of fourteen kinds, and the first or the
// second again, with an update through the API between the reloads or not.
//
//vf:time=60
func C21_Reload() {
	first := ttlDoc("4")
	k, _ := newKache(first.text)
	first.checkLive(k)
	d := anyDoc("second")
	d.put("k.yml")
	err := k.VFReload(context.Background())
	cur := first
	if d.valid {
		vf.Reach("changed")
		vf.Assert(err == nil, "a valid file is reloaded")
		cur = d
	} else {
		vf.Reach("invalid")
		vf.Assert(err != nil, "an invalid file is reported")
	}
	cur.checkLive(k)
	if d.valid && vf.Bool("api") {
		r := request("PUT", "/x/cache/config/update")
		r.Body = body("default_ttl: 8s\nstrict: false\n")
		vf.Assert(do(k.API, r).code == 200, "the update is accepted")
		upd := doc{ttl: 8 * time.Second, xname: "X-Kache"}
		upd.checkLive(k)
		err := k.VFReload(context.Background())
		vf.Assert(err == nil, "an unchanged file is no error")
		upd.checkLive(k)
		vf.Reach("updated")
	}
	first.put("k.yml")
	err = k.VFReload(context.Background())
	vf.Assert(err == nil, "the first file is valid")
	if d.valid {
		first.checkLive(k)
	}
}

// Whatever interleaving of file changes and reloads, in the end the newest
// file is in use, and never a mixture.
//
// Bounds: two changes of the file, each followed by a reload of its own or
// seen by the file watcher's notification; every interleaving with up to 2
// (thorough: 3) preemptions, and a reader.
//
//vf:time=100 ttime=400 sched
func C21_Concurrent() {
	first := ttlDoc("4")
	k, l := newKache(first.text)
	notify := vf.Bool("notify")
	n := 2
	if vf.Thorough() {
		n = 3
	}
	var wg sync.WaitGroup
	vf.DetectRaces()
	vf.Explore(n)
	var mu sync.Mutex
	version := 0
	wg.Add(2)
	for i := 0; i < 2; i++ {
		i := i
		go func() {
			defer wg.Done()
			mu.Lock()
			version++
			sec := string(rune('0' + version))
			ttlDoc(sec).put("k.yml")
			mu.Unlock()
			if i == 0 && notify {
				changed, err := l.Load(context.Background())
				vf.Assert(err == nil, "loading succeeds")
				if changed {
					k.VFApply()
				}
				return
			}
			vf.Assert(k.VFReload(context.Background()) == nil, "reloading succeeds")
		}()
	}
	t := k.Cache.DefaultTTL()
	vf.Assert(t == time.Second || t == 2*time.Second || t == 4*time.Second, "a reader sees the config of one of the files")
	_ = k.Cache.IsExcludedPath("/")
	wg.Wait()
	vf.StopExplore()
	ttlDoc("2").checkLive(k)
	vf.Reach("done")
}

// A request that is served during a reload finds, in each of its decisions,
// the settings of one of the two files.
//
// Bounds: a reload from or to a file with timeouts and exclusions, noticed
// twice, during three decisions of each of four kinds; every interleaving with up to 2 (thorough: 3)
// preemptions.
//
//vf:time=60 ttime=200 sched
func C21_Reader() {
	docs := []string{confHead + "cache:\n  default_ttl: 3s\n  timeouts:\n    - path: ^/a\n      ttl: 7s\n  exclude:\n    path: [\"^/b\"]\n    header: {x_h: v}\n    content:\n      - type: image/.*\n        size: 5\n",
		confHead + "cache:\n  default_ttl: 1s\n"}
	from := vf.Choose("from", 2)
	k, _ := newKache(docs[from])
	vf.SetFile("k.yml", docs[1-from])
	n := 2
	if vf.Thorough() {
		n = 3
	}
	decide := func(which int) int { // the file in use, or -1
		switch which {
		case 0:
			t := k.Cache.PathTTL("/a")
			return map[time.Duration]int{7 * time.Second: 1, time.Second: 2}[t] - 1
		case 1:
			return map[bool]int{true: 0, false: 1}[k.Cache.IsExcludedPath("/b")]
		case 2:
			return map[bool]int{true: 0, false: 1}[k.Cache.IsExcludedHeader(http.Header{"X-H": {"v"}})]
		}
		return map[bool]int{true: 0, false: 1}[k.Cache.IsExcludedContent("image/png", 6)]
	}
	which := vf.Choose("which", 4)
	var wg sync.WaitGroup
	vf.DetectRaces()
	vf.Explore(n)
	wg.Add(1)
	go func() {
		defer wg.Done()
		vf.Assert(k.VFReload(context.Background()) == nil, "reloading succeeds")
		k.VFApply() // a late notification about the same change
	}()
	seen := from
	for i := 0; i < 3; i++ {
		f := decide(which)
		vf.Assert(f >= 0, "a decision follows one of the files")
		vf.Assert(f == seen || seen == from, "a decision never returns to the previous file")
		seen = f
	}
	wg.Wait()
	vf.StopExplore()
	vf.Assert(decide(which) == 1-from, "in the end the new file is in use")
	vf.Reach("done")
}

// The file watcher puts every change into use within its interval, ignores
// invalid files, and also notices a change made before it was started.
//
// Bounds: three versions of the file, the second of fourteen kinds; changes
// before the start of the watcher or after it; any interval of -2 to 20 s.
//
//vf:time=60
func C21_Watch() {
	first := ttlDoc("4")
	path := first.put("k.yml")
	every := time.Duration(vf.Int("interval", -2, 20)) * time.Second
	l, err := config.NewLoader(path, true, every)
	vf.Assert(err == nil && l.AutoReload() && l.Path() == path, "the loader is created")
	if every <= 0 {
		vf.Assert(l.Watch(context.Background()) != nil, "an interval that is not positive is rejected")
		return
	}
	k, err := kache.New(l, prometheus.NewRegistry())
	vf.Assert(err == nil, "the service is created")
	var events atomic.Int32
	start := func() error {
		err := l.Watch(context.Background())
		if err == nil {
			go func() {
				for changed := range l.Events {
					if changed {
						events.Add(1)
						k.VFApply()
					}
				}
			}()
		}
		return err
	}
	d := anyDoc("second")
	cur := first
	if d.valid && d.text != first.text {
		cur = d
	}
	if vf.Bool("early") {
		d.put("k.yml")
		err := start()
		vf.Assert((err == nil) == d.valid, "an invalid file is reported")
		if err != nil {
			vf.Reach("early-invalid")
			return
		}
		vf.Wait()
		vf.Reach("early")
	} else {
		vf.Assert(start() == nil, "watching starts")
		vf.Advance(25 * time.Second)
		vf.Wait()
		vf.Assert(events.Load() == 0, "no change is reported if there is none")
		d.put("k.yml")
		vf.Advance(every)
		vf.Wait()
		vf.Reach("late")
	}
	cur.checkLive(k)
	last := ttlDoc("3")
	last.put("k.yml")
	vf.Advance(every)
	vf.Wait()
	last.checkLive(k)
	l.Close()
}

// No change is lost while the service is still busy with the one before.
//
// Bounds: two changes of the file, the second 1 to 25 s after the first; any
// interval of 5 to 10 s; the service takes up to 20 s to apply a change.
//
//vf:time=60
func C21_Busy() {
	path := ttlDoc("4").put("k.yml")
	every := time.Duration(vf.Int("interval", 5, 10)) * time.Second
	l, err := config.NewLoader(path, true, every)
	vf.Assert(err == nil, "the loader is created")
	k, err := kache.New(l, prometheus.NewRegistry())
	vf.Assert(err == nil, "the service is created")
	vf.Assert(l.Watch(context.Background()) == nil, "watching starts")
	busy := time.Duration(vf.Int("busy", 0, 20)) * time.Second
	early := vf.Bool("early") // does the work before applying the change
	go func() {
		for range l.Events {
			if early {
				time.Sleep(busy)
			}
			k.VFApply()
			if !early {
				time.Sleep(busy)
			}
		}
	}()
	ttlDoc("2").put("k.yml")
	vf.Advance(time.Duration(vf.Int("between", 1, 25)) * time.Second)
	vf.Wait()
	last := ttlDoc("3")
	last.put("k.yml")
	vf.Advance(50 * time.Second)
	vf.Wait()
	last.checkLive(k)
	l.Close()
	vf.Reach("done")
}

var (
	hup     []chan<- os.Signal
	hupSigs []os.Signal
	served  http.Handler
	stopRun context.CancelFunc
)

func fakeNotify(c chan<- os.Signal, sig ...os.Signal) {
	hup = append(hup, c)
	hupSigs = append(hupSigs, sig...)
}

func fakeNotifyContext(ctx context.Context, sig ...os.Signal) (context.Context, context.CancelFunc) {
	ctx, cancel := context.WithCancel(ctx)
	stopRun = cancel
	return ctx, cancel
}

func fakeListen(addr string, h http.Handler) error {
	vf.Assert(addr == ":6067", "the API listens on the configured port")
	served = h
	select {}
}

// A running service reloads on the signal and on a POST to the API, which
// tells whether the file was valid, and by itself within the watch interval.
//
// Bounds: two further versions of the file, the first of fourteen kinds, each
// noticed by signal, API or watcher; signals and the network listener are
// replaced.
//
//vf:time=60 noreplay replace=os/signal.Notify->fakeNotify,os/signal.NotifyContext->fakeNotifyContext,net/http.ListenAndServe->fakeListen
func C21_Run() {
	hup, hupSigs, served, stopRun = nil, nil, nil, nil
	first := ttlDoc("4")
	path := first.put("k.yml")
	watch := vf.Bool("watch")
	l, err := config.NewLoader(path, watch, 10*time.Second)
	vf.Assert(err == nil, "the first file is valid")
	k, err := kache.New(l, prometheus.NewRegistry())
	vf.Assert(err == nil, "the service is created")
	done := false
	go func() {
		vf.Assert(k.Run() == nil, "the service ends without error")
		done = true
	}()
	vf.Advance(time.Second)
	vf.Wait()
	vf.Assert(served != nil && stopRun != nil && !done, "the service is running")
	vf.Assert(len(hup) == 1 && len(hupSigs) == 1 && hupSigs[0] == os.Signal(syscall.SIGHUP), "it waits for the reload signal")
	cur := first
	for i := 0; i < 2; i++ {
		d := ttlDoc("3")
		if i == 0 {
			d = anyDoc("second")
		}
		d.put("k.yml")
		if watch {
			vf.Advance(10 * time.Second)
		} else if vf.Bool("api") {
			w := do(served, request("POST", "/x/cache/config/reload"))
			if d.valid {
				vf.Assert(w.code == 200, "a reload of a valid file succeeds")
			} else {
				vf.Assert(w.code == 400, "an invalid file is reported")
			}
			vf.Reach("api")
		} else {
			hup[0] <- syscall.SIGHUP
			vf.Reach("signal")
		}
		vf.Wait()
		if d.valid {
			cur = d
		}
		cur.checkLive(k)
	}
	stopRun()
	vf.Wait()
	vf.Assert(done, "the service stops on the stop signal")
}
