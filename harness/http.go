package main

import (
	"bufio"
	"bytes"
	"io"
	"net"
	"net/http"
	"net/url"
	"os"
	"path/filepath"
	"strings"
)

// rec is a response writer that records every call that reaches it.
type rec struct {
	h     http.Header
	codes []int // every WriteHeader
	sent  http.Header
	body  bytes.Buffer
	calls []string // "H<code>" or "W<len>"
	hook  func(code int)
	taken bool
}

// recAll can do all the writers of HTTP/1 can.
type recAll struct{ *rec }

func (r recAll) CloseNotify() <-chan bool { return make(chan bool, 1) }
func (r recAll) Hijack() (net.Conn, *bufio.ReadWriter, error) {
	if r.taken {
		return nil, nil, http.ErrHijacked
	}
	r.taken = true
	c, d := net.Pipe()
	d.Close()
	return c, bufio.NewReadWriter(bufio.NewReader(c), bufio.NewWriter(c)), nil
}

func newRec() *rec                 { return &rec{h: http.Header{}} }
func (r *rec) Header() http.Header { return r.h }
func (r *rec) WriteHeader(code int) {
	if code < 100 || code > 999 { // as net/http does
		panic("invalid WriteHeader code " + itoa(code))
	}
	if r.hook != nil {
		r.hook(code)
	}
	r.codes = append(r.codes, code)
	r.calls = append(r.calls, "H"+itoa(code))
	if r.sent == nil {
		r.sent = r.h.Clone()
	}
}
func (r *rec) Write(b []byte) (int, error) {
	if r.taken {
		return 0, http.ErrHijacked
	}
	if r.sent == nil {
		r.sent = r.h.Clone()
	}
	r.calls = append(r.calls, "W"+itoa(len(b)))
	return r.body.Write(b)
}

// The writers of net/http also do these.
func (r *rec) ReadFrom(src io.Reader) (int64, error) {
	return io.Copy(struct{ io.Writer }{r}, src)
}
func (r *rec) WriteString(s string) (int, error) { return r.Write([]byte(s)) }
func (r *rec) Flush() {
	if r.sent == nil && !r.taken {
		r.WriteHeader(200)
	}
}

// code is the status the client gets: the first one written, 200 if none.
func (r *rec) code() int {
	if len(r.codes) > 0 {
		return r.codes[0]
	}
	return 200
}

// newReq builds a request whose URL path is exactly path.
func newReq(method, path, proto string, body io.Reader) *http.Request {
	q := &http.Request{
		Method:     method,
		URL:        &url.URL{Path: path},
		Header:     http.Header{},
		Host:       "example.com",
		RemoteAddr: "192.0.2.1:1234",
		RequestURI: (&url.URL{Path: path}).RequestURI(),
	}
	switch proto {
	case "", "1.1":
		q.Proto, q.ProtoMajor, q.ProtoMinor = "HTTP/1.1", 1, 1
	case "1.0":
		q.Proto, q.ProtoMajor, q.ProtoMinor = "HTTP/1.0", 1, 0
	case "0.9":
		q.Proto, q.ProtoMajor, q.ProtoMinor = "HTTP/0.9", 0, 9
	case "2":
		q.Proto, q.ProtoMajor, q.ProtoMinor = "HTTP/2.0", 2, 0
	case "1.2":
		q.Proto, q.ProtoMajor, q.ProtoMinor = "HTTP/1.2", 1, 2
	}
	if body != nil {
		q.Body = io.NopCloser(body)
	} else {
		q.Body = http.NoBody
	}
	return q
}

// openUnder counts the files below dir that this process holds open.
func openUnder(dir string) int {
	if d, err := filepath.Abs(dir); err == nil {
		dir = d
	}
	if d, err := filepath.EvalSymlinks(dir); err == nil {
		dir = d
	}
	n := 0
	l, _ := os.ReadDir("/proc/self/fd")
	for _, f := range l {
		if t, err := os.Readlink("/proc/self/fd/" + f.Name()); err == nil && strings.HasPrefix(t, dir+"/") {
			n++
		}
	}
	return n
}
