package server

import (
	"net/http"

	"github.com/kacheio/kache/pkg/cluster"
)

// VFSetCluster connects the server to a cluster.
func (s *Server) VFSetCluster(c cluster.Connection) { s.cluster = c }

// VFTransport is the transport the proxy sends requests with.
func (s *Server) VFTransport() http.RoundTripper { return s.proxy.Transport }
