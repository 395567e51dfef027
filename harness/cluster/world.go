// Package cluster holds the harnesses for the messages between the nodes of a
// cluster.
package cluster

import (
	"bytes"
	"context"
	"encoding/json"
	"errors"
	"io"
	"net/http"
	"os"
	"path/filepath"
	"strings"

	kc "github.com/kacheio/kache/pkg/cluster"
	vf "github.com/kacheio/kache/zzvf/vf"
	v1 "k8s.io/api/core/v1"
	metav1 "k8s.io/apimachinery/pkg/apis/meta/v1"
	"k8s.io/client-go/kubernetes"
	"k8s.io/client-go/rest"
)

type rtf func(*http.Request) (*http.Response, error)

func (f rtf) RoundTrip(r *http.Request) (*http.Response, error) { return f(r) }

// body tells whether it was read and closed.
type body struct {
	io.Reader
	closed bool
}

func (b *body) Close() error { b.closed = true; return nil }

// lookup answers the connection's questions for the endpoints of a service.
var lookup func(namespace, name string) (*v1.Endpoints, error)

// endpoints has the layout of the kubernetes client's type.
type endpoints struct {
	client rest.Interface
	ns     string
}

// The following stand for the kubernetes client in the engine.

func getEndpoints(c *endpoints, ctx context.Context, name string, _ metav1.GetOptions) (*v1.Endpoints, error) {
	e, err := lookup(c.ns, name)
	if e == nil {
		e = &v1.Endpoints{}
	}
	return e, err
}

func inCluster() (*rest.Config, error) { return nil, errors.New("not in a cluster") }

func fromFlags(master, path string) (*rest.Config, error) {
	vf.Assert(strings.HasSuffix(path, ".kube/config"), "the user's configuration is used")
	return &rest.Config{Host: "http://k8s"}, nil
}

func newClientset(*rest.Config) (*kubernetes.Clientset, error) { return &kubernetes.Clientset{}, nil }

// connect creates a connection for service svc in namespace ns.
func connect() kc.Connection {
	cfg := &kc.Config{Discovery: "kubernetes", Namespace: "ns", Service: "svc"}
	if vf.Symbolic() {
		c, err := kc.NewConnection(cfg)
		vf.Assert(err == nil, "the connection is created")
		return c
	}
	home, err := os.MkdirTemp("", "vf")
	if err != nil {
		panic(err)
	}
	defer os.RemoveAll(home)
	os.Unsetenv("KUBERNETES_SERVICE_HOST")
	os.Setenv("HOME", home)
	if err := os.Mkdir(filepath.Join(home, ".kube"), 0o700); err != nil {
		panic(err)
	}
	doc := "apiVersion: v1\nkind: Config\ncurrent-context: c\ncontexts: [{name: c, context: {cluster: k, user: u}}]\n" +
		"clusters: [{name: k, cluster: {server: \"http://k8s\"}}]\nusers: [{name: u, user: {}}]\n"
	if err := os.WriteFile(filepath.Join(home, ".kube", "config"), []byte(doc), 0o600); err != nil {
		panic(err)
	}
	c, err := kc.NewConnection(cfg)
	vf.Assert(err == nil, "the connection is created")
	cs, err := kubernetes.NewForConfigAndClient(&rest.Config{Host: "http://k8s"}, &http.Client{Transport: rtf(func(r *http.Request) (*http.Response, error) {
		p := strings.Split(r.URL.Path, "/")
		if len(p) != 7 || p[3] != "namespaces" || p[5] != "endpoints" {
			return nil, errors.New("unexpected request " + r.URL.Path)
		}
		e, err := lookup(p[4], p[6])
		if err != nil {
			return nil, err
		}
		e.Kind, e.APIVersion = "Endpoints", "v1"
		b, err := json.Marshal(e)
		if err != nil {
			panic(err)
		}
		return &http.Response{StatusCode: 200, Proto: "HTTP/1.1", ProtoMajor: 1, ProtoMinor: 1, Request: r, ContentLength: int64(len(b)),
			Header: http.Header{"Content-Type": {"application/json"}}, Body: io.NopCloser(bytes.NewReader(b))}, nil
	})})
	if err != nil {
		panic(err)
	}
	kc.VFSetClientset(c, cs)
	return c
}
