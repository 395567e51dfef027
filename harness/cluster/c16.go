package cluster

import (
	"context"
	"errors"
	"io"
	"net/http"
	"net/url"
	"strconv"
	"strings"
	"sync"
	"time"

	kc "github.com/kacheio/kache/pkg/cluster"
	vf "github.com/kacheio/kache/zzvf/vf"
	v1 "k8s.io/api/core/v1"
)

// attempt is one delivery as seen by a node.
type attempt struct {
	start, end time.Duration
	ok         bool
}

// net records the deliveries to each node and fails them as told.
type network struct {
	mu       sync.Mutex
	at       map[string][]attempt
	inFlight int
	most     int
	open     []*body
	begun    time.Time
	outcome  func(host string, n int) (time.Duration, int, error)
	check    func(*http.Request)
}

func (w *network) RoundTrip(r *http.Request) (*http.Response, error) {
	w.check(r)
	host := r.URL.Hostname()
	w.mu.Lock()
	n := len(w.at[host])
	w.at[host] = append(w.at[host], attempt{start: time.Since(w.begun)})
	w.inFlight++
	if w.inFlight > w.most {
		w.most = w.inFlight
	}
	w.mu.Unlock()
	d, code, err := w.outcome(host, n)
	if d > 0 {
		t := time.NewTimer(d)
		defer t.Stop()
		select {
		case <-t.C:
		case <-r.Context().Done():
			err = r.Context().Err()
		}
	}
	w.mu.Lock()
	defer w.mu.Unlock()
	w.inFlight--
	w.at[host][n].end = time.Since(w.begun)
	w.at[host][n].ok = err == nil && code < 400
	if err != nil {
		return nil, err
	}
	b := &body{Reader: strings.NewReader("answer")}
	w.open = append(w.open, b)
	return &http.Response{StatusCode: code, Proto: "HTTP/1.1", ProtoMajor: 1, ProtoMinor: 1, Request: r, Header: http.Header{}, Body: b, ContentLength: 6}, nil
}

// limit is the time a delivery may take.
const limit = 10 * time.Second

// A node that cannot be reached, does not answer within 10 s or answers with an
// error gets the message again 7 s later, complete, until it succeeds, five times in all; a node that got it
// does not get it again, whatever happens at other nodes.
//
// Bounds: two nodes (thorough: three), failing never, four (the second one: once)
// or six times (thorough: any number up to six), the first one by errors, by symbolic
// statuses, both in turn, or by taking up to 20 s, the others by errors and statuses
// in turn, and then succeeding with a symbolic status; each other delivery takes up
// to 10 s (of the second node 0, 3 or 9 s); a symbolic body or none.
//
//vf:time=90 ttime=400 replace=(*k8s.io/client-go/kubernetes/typed/core/v1.endpoints).Get->getEndpoints,k8s.io/client-go/rest.InClusterConfig->inCluster,k8s.io/client-go/tools/clientcmd.BuildConfigFromFlags->fromFlags,k8s.io/client-go/kubernetes.NewForConfig->newClientset
func C16_Retry() {
	nodes := 2
	if vf.Thorough() {
		nodes = 3
	}
	s := v1.EndpointSubset{Ports: []v1.EndpointPort{{Name: "api", Port: 80}}}
	hosts := [...]string{"10.0.0.1", "10.0.0.2", "10.0.0.3"}
	fails := map[string]int{}
	how := map[string]int{}
	bad := map[string]int{}
	good := map[string]int{}
	took := map[string]time.Duration{}
	for i, h := range hosts[:nodes] {
		s.Addresses = append(s.Addresses, v1.EndpointAddress{IP: h})
		if vf.Thorough() {
			fails[h] = vf.Choose("fails", 7)
		} else {
			fails[h] = [...]int{0, 4 - 3*i, 6}[vf.Choose("fails", 3)]
		}
		if fails[h] > 0 {
			how[h] = 2
			if i == 0 {
				how[h] = vf.Choose("how", 3)
			}
			bad[h] = int(vf.Int("bad", 400, 599))
		}
		good[h] = int(vf.Int("good", 200, 299))
		if i == 0 || vf.Thorough() {
			took[h] = time.Duration(vf.Int("took", 0, 20e9))
		} else {
			took[h] = [...]time.Duration{0, 3 * time.Second, 9 * time.Second}[vf.Choose("took", 3)]
		}
		vf.Assume(vf.And(took[h] != limit, vf.Implies(took[h] > limit, i == 0 && fails[h] == 0)))
		if i > 0 {
			// Different instants spare the order of simultaneous deliveries.
			vf.Assume(took[h] != took[hosts[i-1]])
		}
	}
	lookup = func(ns, name string) (*v1.Endpoints, error) {
		return &v1.Endpoints{Subsets: []v1.EndpointSubset{s}}, nil
	}
	text := vf.String("body", 2*vf.Choose("len", 2), "\x00-\xff")
	w := &network{at: map[string][]attempt{}}
	w.check = func(r *http.Request) {
		var b []byte
		var err error
		if r.Body != nil {
			b, err = io.ReadAll(r.Body)
		}
		vf.Assert(err == nil && string(b) == text && r.ContentLength == int64(len(text)), "each delivery has the complete body")
		vf.Assert(r.Method == "PUT" && r.URL.Path == "/x" && r.URL.Port() == "80" && r.Header.Get("X-V") == "v", "each delivery is complete")
	}
	w.outcome = func(h string, n int) (time.Duration, int, error) {
		switch {
		case n >= fails[h]:
			return took[h], good[h], nil
		case how[h] == 0 || how[h] == 2 && n%2 == 0:
			return took[h], 0, errors.New("connection refused")
		}
		return took[h], bad[h], nil
	}
	old := http.DefaultTransport
	defer func() { http.DefaultTransport = old }()
	http.DefaultTransport = w
	c := connect()
	var b io.ReadCloser = http.NoBody
	if text != "" {
		b = io.NopCloser(strings.NewReader(text))
	}
	r := &http.Request{Method: "PUT", Host: "front", Proto: "HTTP/1.1", ProtoMajor: 1, ProtoMinor: 1, URL: &url.URL{Path: "/q"}, RequestURI: "/q",
		Header: http.Header{"X-V": {"v"}}, RemoteAddr: "192.0.2.9:1234", Body: b, ContentLength: int64(len(text))}
	w.begun = time.Now()
	c.Broadcast(r, "api", "PUT", "/x")
	vf.Assert(time.Since(w.begun) == 0, "sending does not wait for the nodes")
	vf.Advance(1000 * time.Second)
	w.mu.Lock()
	defer w.mu.Unlock()
	for _, h := range hosts[:nodes] {
		want := fails[h] + 1
		if want > 5 || took[h] > limit {
			want = 5
		}
		at := w.at[h]
		vf.Assert(len(at) == want, "a node gets the message until it succeeds, up to five times")
		vf.Assert(at[0].start == 0, "a node gets the message at once")
		for i := 1; i < len(at); i++ {
			vf.Assert(at[i].start == at[i-1].end+7*time.Second, "a node gets the message again after 7 s")
		}
		if want == 5 {
			vf.Reach("many")
		}
	}
	for _, b := range w.open {
		vf.Assert(b.closed, "answers are closed")
	}
	c.Close()
	vf.Reach("done")
}

// Nodes that do not answer, or not to the end, neither stop messages to others
// nor the service.
//
// Bounds: up to eight unresponsive nodes among forty; a broadcast, then closing
// at any time within 100 s.
//
//vf:time=60 replace=(*k8s.io/client-go/kubernetes/typed/core/v1.endpoints).Get->getEndpoints,k8s.io/client-go/rest.InClusterConfig->inCluster,k8s.io/client-go/tools/clientcmd.BuildConfigFromFlags->fromFlags,k8s.io/client-go/kubernetes.NewForConfig->newClientset
func C16_Unresponsive() {
	n := [...]int{0, 1, 5, 6, 8}[vf.Choose("unresponsive", 5)]
	first := vf.Bool("first") // in the list of endpoints
	half := vf.Bool("half")   // send the beginning of an answer
	bad := map[string]bool{}
	s := v1.EndpointSubset{Ports: []v1.EndpointPort{{Name: "api", Port: 80}}}
	for i := 0; i < 40; i++ {
		h := "10.0.0." + strconv.Itoa(i)
		bad[h] = first && i < n || !first && i >= 40-n
		s.Addresses = append(s.Addresses, v1.EndpointAddress{IP: h})
	}
	lookup = func(ns, name string) (*v1.Endpoints, error) {
		return &v1.Endpoints{Subsets: []v1.EndpointSubset{s}}, nil
	}
	var mu sync.Mutex
	got := 0
	old := http.DefaultTransport
	defer func() { http.DefaultTransport = old }()
	http.DefaultTransport = rtf(func(r *http.Request) (*http.Response, error) {
		a := &http.Response{StatusCode: 200, Proto: "HTTP/1.1", ProtoMajor: 1, ProtoMinor: 1, Request: r, Header: http.Header{}, Body: http.NoBody}
		if !bad[r.URL.Hostname()] {
			mu.Lock()
			got++
			mu.Unlock()
			return a, nil
		}
		if half {
			a.Body, a.ContentLength = io.NopCloser(stuck{r.Context()}), 9
			return a, nil
		}
		<-r.Context().Done()
		return nil, r.Context().Err()
	})
	c := connect()
	send := func() {
		begun := time.Now()
		c.Broadcast(&http.Request{Method: "PUT", URL: &url.URL{Path: "/q"}, Header: http.Header{}, RemoteAddr: "192.0.2.9:1234", Body: http.NoBody}, "api", "PUT", "/x")
		vf.Assert(time.Since(begun) == 0, "sending does not wait for the nodes")
	}
	send()
	when := time.Duration(vf.Int("when", 0, 100e9))
	vf.Assume(when%time.Second != 0)
	vf.Advance(when)
	mu.Lock()
	if vf.Or(n < 6, when > 20*time.Second) {
		vf.Reach("delivered")
		vf.Assert(got == 40-n, "the other nodes get the message")
	}
	mu.Unlock()
	begun := time.Now()
	c.Close()
	vf.Assert(time.Since(begun) <= limit, "closing waits for a delivery for 10 s at most")
	before := got
	send() // does not block either
	vf.Advance(100 * time.Second)
	vf.Assert(got == before, "nothing is delivered once closed")
	vf.Reach("done")
}

// stuck is an answer that does not go on.
type stuck struct{ ctx context.Context }

func (s stuck) Read([]byte) (int, error) {
	<-s.ctx.Done()
	return 0, s.ctx.Err()
}

// The queue of messages delivers every message until it succeeds or was tried
// as often as configured, at most as many at once as there are workers; once it
// is stopped nothing is delivered any more.
//
// Bounds: up to three messages in a queue of one or two places; one or two
// workers; up to two attempts; any backoff up to 10 s and any duration of
// deliveries up to 5 s; stopped at any time or not at all.
//
//vf:time=110 ttime=400
func C16_Queue() {
	workers := 1 + vf.Choose("workers", 2)
	retries := vf.Choose("retries", 3)
	backoff := time.Duration(vf.Int("backoff", 1, 10e9))
	took := time.Duration(vf.Int("took", 0, 5e9))
	n := 3
	hosts := [...]string{"10.0.0.1", "10.0.0.2", "10.0.0.3"}
	fails := map[string]int{}
	for _, h := range hosts[:n] {
		fails[h] = vf.Choose("fails", 3)
	}
	w := &network{at: map[string][]attempt{}, check: func(*http.Request) {}}
	w.outcome = func(h string, n int) (time.Duration, int, error) {
		if n >= fails[h] {
			return took, 200, nil
		}
		if h == hosts[0] {
			return took, 500, nil
		}
		return took, 0, errors.New("connection refused")
	}
	old := http.DefaultTransport
	defer func() { http.DefaultTransport = old }()
	http.DefaultTransport = w
	w.begun = time.Now()
	q := kc.NewRequestQueue(kc.RequestQueueOpts{Size: 1 + vf.Choose("size", 2), MaxWorkers: workers, MaxRetries: retries, Backoff: backoff})
	stop := vf.Bool("stop")
	sent := make(chan bool)
	go func() {
		defer close(sent)
		for _, h := range hosts[:n] {
			r, err := http.NewRequest("PUT", "http://"+h+"/x", strings.NewReader("x"))
			vf.Assert(err == nil, "the request is valid")
			if stop {
				select {
				case q.Queue <- kc.Message{Request: r}:
				case <-time.After(1000 * time.Second):
				}
			} else {
				q.Queue <- kc.Message{Request: r}
			}
		}
	}()
	if stop {
		vf.Advance(time.Duration(vf.Int("when", 0, 20e9)))
		q.Stop()
		w.mu.Lock()
		vf.Assert(w.inFlight == 0, "stopping waits for deliveries under way")
		before := len(w.at[hosts[0]]) + len(w.at[hosts[1]]) + len(w.at[hosts[2]])
		w.mu.Unlock()
		<-sent
		vf.Advance(1000 * time.Second)
		w.mu.Lock()
		vf.Assert(len(w.at[hosts[0]])+len(w.at[hosts[1]])+len(w.at[hosts[2]]) == before, "nothing is delivered once stopped")
		w.mu.Unlock()
		vf.Reach("stopped")
	} else {
		<-sent
		vf.Advance(1000 * time.Second)
		w.mu.Lock()
		for _, h := range hosts[:n] {
			want := fails[h] + 1
			if want > retries {
				want = retries
			}
			if want < 1 {
				want = 1
			}
			at := w.at[h]
			vf.Assert(len(at) == want, "a message is tried until it succeeds, as often as configured")
			others := len(w.at[hosts[0]]) + len(w.at[hosts[1]]) + len(w.at[hosts[2]]) - len(at)
			vf.Assert(at[0].start <= took*time.Duration(others), "a message waits for other deliveries only, not for their backoff")
			for i := 1; i < len(at); i++ {
				vf.Assert(at[i].start >= at[i-1].end+backoff, "a message is tried again after the backoff")
			}
		}
		w.mu.Unlock()
		q.Stop()
		vf.Reach("done")
	}
	w.mu.Lock()
	defer w.mu.Unlock()
	vf.Assert(w.most <= workers, "there are no more deliveries at once than workers")
	for _, b := range w.open {
		vf.Assert(b.closed, "answers are closed")
	}
}
