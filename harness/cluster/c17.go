package cluster

import (
	"errors"
	"fmt"
	"io"
	"net/http"
	"net/url"
	"strings"
	"sync"
	"time"

	vf "github.com/kacheio/kache/zzvf/vf"
	v1 "k8s.io/api/core/v1"
)

// A message to the cluster reaches every endpoint of the service that has the
// port, once, on the port's number in its own subset, with the method, the
// path, the body and the headers of the request, and marked as a message.
//
// Bounds: up to two subsets, each with the port alone, before, after or instead
// of another (with or without a name), with symbolic numbers
// (the second of five digits), and up to two addresses (IPv4 or IPv6);
// two methods; symbolic body and header bytes; with or without the headers that
// name the client; the lookup may fail.
//
//vf:time=60 replace=(*k8s.io/client-go/kubernetes/typed/core/v1.endpoints).Get->getEndpoints,k8s.io/client-go/rest.InClusterConfig->inCluster,k8s.io/client-go/tools/clientcmd.BuildConfigFromFlags->fromFlags,k8s.io/client-go/kubernetes.NewForConfig->newClientset
func C17_Broadcast() {
	fail := vf.Bool("fail")
	eps := &v1.Endpoints{}
	var want []string
	for i, n := 0, vf.Choose("subsets", 3); i < n; i++ {
		s := v1.EndpointSubset{}
		port := int32(vf.Int("port", 1+9999*int64(i), 65535))
		api := v1.EndpointPort{Name: "api", Port: port}
		other := v1.EndpointPort{Name: "http", Port: int32(vf.Int("other", 1, 65535))}
		has := true
		switch vf.Choose("ports", 6) {
		case 0:
			s.Ports = []v1.EndpointPort{api}
		case 1:
			s.Ports = []v1.EndpointPort{other, api}
		case 2:
			s.Ports = []v1.EndpointPort{api, other}
		case 3:
			s.Ports = []v1.EndpointPort{other}
			has = false
		case 4:
			s.Ports = []v1.EndpointPort{api, {Port: other.Port}}
		case 5:
			s.Ports = []v1.EndpointPort{{Name: "api-https", Port: other.Port}, {Name: "ap", Port: other.Port}}
			has = false
		}
		for j, m := 0, vf.Choose("addresses", 3); j < m; j++ {
			ip := fmt.Sprintf("10.0.%d.%d", i, j)
			host := ip
			a := v1.EndpointAddress{IP: ip, Hostname: "h"}
			if j == 1 {
				a.TargetRef = &v1.ObjectReference{Name: "pod"}
				a.IP = fmt.Sprintf("fd00::%d", i+1)
				host = "[" + a.IP + "]"
			}
			s.Addresses = append(s.Addresses, a)
			if has && !fail {
				want = append(want, host+":"+vf.Dec(int64(port)))
			}
		}
		s.NotReadyAddresses = []v1.EndpointAddress{{IP: "10.9.9.9"}}
		eps.Subsets = append(eps.Subsets, s)
	}
	lookup = func(ns, name string) (*v1.Endpoints, error) {
		vf.Assert(ns == "ns" && name == "svc", "the configured service is looked up")
		if fail {
			return nil, errors.New("no api server")
		}
		return eps, nil
	}
	text := vf.String("body", 2, "\x00-\xff")
	v := vf.String("value", 1, "!-~")
	method := [...]string{"PURGE", "PUT"}[vf.Choose("method", 2)]
	path := "/api/cache/config/update?x=1"
	names := vf.Choose("names", 3)
	xff := [...]string{"192.0.2.9", "203.0.113.1", ""}[names]

	var mu sync.Mutex
	var got []string
	old := http.DefaultTransport
	defer func() { http.DefaultTransport = old }()
	http.DefaultTransport = rtf(func(r *http.Request) (*http.Response, error) {
		b, err := io.ReadAll(r.Body)
		mu.Lock()
		defer mu.Unlock()
		vf.Assert(err == nil && string(b) == text && r.ContentLength == 2, "the body is the request's")
		vf.Assert(r.Method == method && r.URL.Scheme == "http" && r.URL.RequestURI() == path, "method and path are the message's")
		vf.Assert(r.Header.Get("X-Kache-Cluster") != "", "the message is marked")
		vf.Assert(len(r.Header["X-V"]) == 2 && r.Header["X-V"][0] == v && r.Header["X-V"][1] == "second", "the headers are the request's")
		vf.Assert(r.Header.Get("X-Forwarded-For") == xff, "the client's address is passed on")
		host := r.URL.Hostname()
		if strings.Contains(host, ":") {
			host = "[" + host + "]"
		}
		got = append(got, host+":"+r.URL.Port())
		return &http.Response{StatusCode: 200, Proto: "HTTP/1.1", ProtoMajor: 1, ProtoMinor: 1, Request: r, Header: http.Header{}, Body: http.NoBody}, nil
	})
	c := connect()
	r := &http.Request{Method: "POST", Host: "front", Proto: "HTTP/1.1", ProtoMajor: 1, ProtoMinor: 1, URL: &url.URL{Path: "/q"}, RequestURI: "/q",
		Header: http.Header{"X-V": {v, "second"}, "Content-Length": {"2"}}, RemoteAddr: "192.0.2.9:1234",
		Body: io.NopCloser(strings.NewReader(text)), ContentLength: 2}
	switch names {
	case 1:
		r.Header["X-Forwarded-For"] = []string{"203.0.113.1"}
	case 2:
		r.Header["X-Real-Ip"] = []string{"203.0.113.2"}
	}
	c.Broadcast(r, "api", method, path)
	vf.Advance(100 * time.Second)
	mu.Lock()
	vf.Assert(len(got) == len(want), "every endpoint gets one message")
	for _, w := range want {
		n := 0
		for _, g := range got {
			if g == w {
				n++
			}
		}
		vf.Assert(n >= 1, "every endpoint gets the message")
	}
	mu.Unlock()
	if len(want) > 2 {
		vf.Reach("many")
	}
	vf.Assert(r.Header.Get("X-Kache-Cluster") == "", "the request is left alone")
	c.Close()
	vf.Reach("done")
}
