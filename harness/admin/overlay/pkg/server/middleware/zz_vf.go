package middleware

import "net/http"

// VFSetOrigin replaces the network below the caching transport.
func VFSetOrigin(rt, origin http.RoundTripper) {
	rt.(*requestCoalescer).next.(*Transport).Transport = origin
}
