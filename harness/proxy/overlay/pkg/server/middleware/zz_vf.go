package middleware

import (
	"context"
	"net"
	"net/http"
)

// VFSetOrigin replaces the network below the caching transport.
func VFSetOrigin(rt, origin http.RoundTripper) {
	rt.(*requestCoalescer).next.(*Transport).Transport = origin
}

// VFSetDial replaces the way connections to origins are made.
func VFSetDial(rt http.RoundTripper, dial func(ctx context.Context, network, addr string) (net.Conn, error)) {
	rt.(*requestCoalescer).next.(*Transport).Transport.(*http.Transport).DialContext = dial
}
