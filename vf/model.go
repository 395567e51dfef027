package vf

import (
	"bytes"
	"errors"
	"fmt"
	"io"
	"net/http"
	"strconv"
	"strings"
)

// The functions below are contracts of the standard library's HTTP/1.1 message
// codec. The engine calls them in place of (*http.Response).Write and
// http.ReadResponse unless the harness asked for the real codec: the message is
// kept as a structure behind a unique byte string instead of being rendered to
// bytes and parsed again, so header values and bodies may stay symbolic. They
// are validated against the real codec by the native runs of sampled paths and
// by the harnesses that use RealCodec.

// blobPut returns fresh bytes standing for a deep copy of v (engine only).
func blobPut(v any) []byte { panic("engine only") }

// blobGet returns a deep copy of the value behind bytes made by blobPut.
func blobGet(b []byte) (any, bool) { panic("engine only") }

// realReadResponse runs the library's own code (engine only).
func realReadResponse(b []byte, req *http.Request) (*http.Response, error) { panic("engine only") }

type wireMessage struct {
	major, minor int
	code         int
	text         string
	header       http.Header
	body         []byte
	chunked      bool
	hasCL        bool
	cl           int64
}

func bodyAllowed(status int) bool {
	return !(status >= 100 && status <= 199 || status == 204 || status == 304)
}

// ModelRespWrite is the contract of (*http.Response).Write.
func ModelRespWrite(r *http.Response, w io.Writer) error {
	text := r.Status
	if text == "" {
		text = http.StatusText(r.StatusCode)
		if text == "" {
			text = "status code " + strconv.Itoa(r.StatusCode)
		}
	} else {
		text = strings.TrimPrefix(text, strconv.Itoa(r.StatusCode)+" ")
	}
	m := wireMessage{major: r.ProtoMajor, minor: r.ProtoMinor, code: r.StatusCode, text: text}
	head := r.Request != nil && r.Request.Method == "HEAD"
	atLeast11 := r.ProtoMajor > 1 || r.ProtoMajor == 1 && r.ProtoMinor >= 1

	cl, close := r.ContentLength, r.Close
	chunked := len(r.TransferEncoding) > 0 && r.TransferEncoding[0] == "chunked"
	var data []byte
	if r.Body != nil && !(head && cl != 0) {
		b, err := io.ReadAll(r.Body)
		if err != nil {
			return err
		}
		data = b
		if cl == 0 && len(data) > 0 {
			cl = -1
		}
	}
	noBody := r.Body == nil || r.ContentLength == 0 && len(data) == 0
	if cl == -1 && !close && atLeast11 && !chunked && !r.Uncompressed {
		close = true
	}
	if head {
		data = nil
		if chunked {
			cl = -1
		}
	} else {
		if !atLeast11 || noBody && r.Body == nil {
			chunked = false
		}
		if chunked {
			cl = -1
		} else if r.Body == nil {
			cl = 0
		}
	}
	m.header = http.Header{}
	for k, vv := range r.Header {
		switch k {
		case "Host", "Transfer-Encoding", "Content-Length", "Trailer":
			if k != "Host" {
				continue
			}
		}
		k = http.CanonicalHeaderKey(k)
		for _, v := range vv {
			m.header[k] = append(m.header[k], v)
		}
	}
	if close && !strings.Contains(strings.ToLower(r.Header.Get("Connection")), "close") {
		m.header["Connection"] = append(m.header["Connection"], "close")
	}
	m.chunked = chunked
	if !chunked && (cl > 0 || cl == 0 && bodyAllowed(r.StatusCode)) {
		m.hasCL, m.cl = true, cl
	}
	if r.Body != nil {
		if err := r.Body.Close(); err != nil {
			return err
		}
	}
	if !head && cl != -1 && cl != int64(len(data)) {
		return fmt.Errorf("http: ContentLength=%d with Body length %d", cl, len(data))
	}
	m.body = data
	_, err := w.Write(blobPut(m))
	return err
}

type wireBody struct {
	r      *bytes.Reader
	closed bool
}

var errBodyClosed = http.ErrBodyReadAfterClose

func (b *wireBody) Read(p []byte) (int, error) {
	if b.closed {
		return 0, errBodyClosed
	}
	return b.r.Read(p)
}

func (b *wireBody) Close() error {
	b.closed = true
	return nil
}

// ModelReadResponse is the contract of http.ReadResponse.
func ModelReadResponse(br io.Reader, req *http.Request) (*http.Response, error) {
	data, err := io.ReadAll(br)
	if err != nil {
		return nil, err
	}
	x, ok := blobGet(data)
	if !ok {
		return realReadResponse(data, req)
	}
	m, ok := x.(wireMessage)
	if !ok {
		return nil, errors.New("malformed HTTP response")
	}
	resp := &http.Response{Request: req}
	resp.ProtoMajor, resp.ProtoMinor = m.major, m.minor
	resp.Proto = "HTTP/" + strconv.Itoa(m.major) + "." + strconv.Itoa(m.minor)
	resp.StatusCode = m.code
	resp.Status = fmt.Sprintf("%03d", m.code) + " " + m.text
	resp.Header = m.header
	if hp, ok := resp.Header["Pragma"]; ok && len(hp) > 0 && hp[0] == "no-cache" {
		if _, presentcc := resp.Header["Cache-Control"]; !presentcc {
			resp.Header["Cache-Control"] = []string{"no-cache"}
		}
	}
	if m.hasCL {
		resp.Header["Content-Length"] = []string{strconv.FormatInt(m.cl, 10)}
	}
	if c := resp.Header.Get("Connection"); strings.Contains(strings.ToLower(c), "close") ||
		m.major == 1 && m.minor == 0 && !strings.Contains(strings.ToLower(c), "keep-alive") || m.major < 1 {
		resp.Close = true
	}
	method := "GET"
	if req != nil {
		method = req.Method
	}
	real := int64(-1)
	switch {
	case method == "HEAD" || m.code/100 == 1 || m.code == 204 || m.code == 304:
		real = 0
	case m.chunked:
	case m.hasCL:
		real = m.cl
	}
	resp.ContentLength = real
	if method == "HEAD" {
		resp.ContentLength = -1
		if m.hasCL {
			resp.ContentLength = m.cl
		}
	}
	if real == -1 && !m.chunked && bodyAllowed(m.code) {
		resp.Close = true
	}
	if m.chunked {
		resp.TransferEncoding = []string{"chunked"}
	}
	switch {
	case m.chunked:
		if method == "HEAD" || !bodyAllowed(m.code) {
			resp.Body = http.NoBody
		} else {
			resp.Body = &wireBody{r: bytes.NewReader(m.body)}
		}
	case real == 0:
		resp.Body = http.NoBody
	default:
		resp.Body = &wireBody{r: bytes.NewReader(m.body)}
	}
	return resp, nil
}
