package server

import (
	"net"
	"net/http"
)

// VFTransport is the transport the proxy sends requests with.
func (s *Server) VFTransport() http.RoundTripper { return s.proxy.Transport }

// VFSetListener makes the listener called name listen on l.
func (s *Server) VFSetListener(name string, l net.Listener) {
	s.listeners[name].listener.Close()
	s.listeners[name].listener = l
}

// VFStart starts the listeners.
func (s *Server) VFStart() { s.listeners.Start() }

// VFListener is the network listener of the listener called name.
func (s *Server) VFListener(name string) net.Listener { return s.listeners[name].listener }
