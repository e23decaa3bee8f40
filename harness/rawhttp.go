package main

import (
	"bufio"
	"bytes"
	"fmt"
	"io"
	"log"
	"net"
	"net/http"
	"net/http/httptest"
	"sync"
	"sync/atomic"
	"time"
)

// srv is a real HTTP server and one client connection to it that sends request
// lines exactly as told.
type srv struct {
	ts *httptest.Server
	wg sync.WaitGroup // handlers at work
	n  int64          // bytes the client got (of the body, when HTTP/2)
	h2 bool
	c  net.Conn
	br *bufio.Reader
}

type answer struct {
	Code int
	H    http.Header
	Body []byte
	Err  string
}

func newSrv(h http.Handler) *srv {
	s := &srv{}
	s.ts = httptest.NewUnstartedServer(http.HandlerFunc(func(w http.ResponseWriter, q *http.Request) {
		s.wg.Add(1)
		defer s.wg.Done()
		h.ServeHTTP(w, q)
	}))
	s.ts.Config.ErrorLog = log.New(io.Discard, "", 0)
	s.ts.Start()
	return s
}

// newSrv2 is one that speaks HTTP/2.
func newSrv2(h http.Handler) *srv {
	s := newSrv(h)
	c := s.ts.Config.Handler
	s.ts.Close()
	s.ts = httptest.NewUnstartedServer(c)
	s.ts.Config.ErrorLog = log.New(io.Discard, "", 0)
	s.ts.EnableHTTP2 = true
	s.ts.StartTLS()
	s.h2 = true
	return s
}

type countConn struct {
	net.Conn
	n *int64
}

func (c countConn) Read(p []byte) (int, error) {
	n, err := c.Conn.Read(p)
	atomic.AddInt64(c.n, int64(n))
	return n, err
}

func (s *srv) do2(method, target string, body []byte) answer {
	a := answer{H: http.Header{}}
	q, err := http.NewRequest(method, s.ts.URL+target, bytes.NewReader(body))
	die(err)
	cl := s.ts.Client()
	cl.Timeout = 20 * time.Second
	cl.CheckRedirect = func(*http.Request, []*http.Request) error { return http.ErrUseLastResponse }
	p, err := cl.Do(q)
	if err != nil {
		a.Err = "no answer"
		return a
	}
	defer p.Body.Close()
	if p.ProtoMajor != 2 {
		die(fmt.Errorf("no HTTP/2"))
	}
	atomic.AddInt64(&s.n, 1) // the headers
	a.Code, a.H = p.StatusCode, p.Header
	b := make([]byte, 4096)
	for {
		n, err := p.Body.Read(b)
		a.Body = append(a.Body, b[:n]...)
		atomic.AddInt64(&s.n, int64(n))
		if err == io.EOF {
			return a
		}
		if err != nil {
			a.Err = "cut short"
			return a
		}
	}
}

func (s *srv) close() {
	if s.c != nil {
		s.c.Close()
	}
	s.ts.Close()
}

func (s *srv) do(method, target string, hs [][]string, body []byte) answer {
	if s.h2 {
		defer s.rest()
		return s.do2(method, target, body)
	}
	if s.c == nil {
		c, err := net.Dial("tcp", s.ts.Listener.Addr().String())
		die(err)
		s.c, s.br = c, bufio.NewReader(countConn{c, &s.n})
	}
	var b bytes.Buffer
	fmt.Fprintf(&b, "%s %s HTTP/1.1\r\nHost: example.com\r\n", method, target)
	for _, h := range hs {
		fmt.Fprintf(&b, "%s: %s\r\n", h[0], h[1])
	}
	if len(body) > 0 || method == "POST" || method == "PUT" || method == "PATCH" {
		fmt.Fprintf(&b, "Content-Length: %d\r\n", len(body))
	}
	b.WriteString("\r\n")
	b.Write(body)
	s.c.SetDeadline(time.Now().Add(20 * time.Second))
	a := answer{H: http.Header{}}
	if _, err := s.c.Write(b.Bytes()); err != nil {
		a.Err = "no answer"
	} else if p, err := http.ReadResponse(s.br, &http.Request{Method: method}); err != nil {
		a.Err = "no answer"
	} else {
		a.Code, a.H = p.StatusCode, p.Header
		if a.Body, err = io.ReadAll(p.Body); err != nil {
			a.Err = "cut short"
		}
		p.Body.Close()
		if p.Close {
			s.c.Close()
			s.c = nil
		}
	}
	if a.Err != "" && s.c != nil {
		s.c.Close()
		s.c = nil
	}
	s.rest()
	return a
}

func (s *srv) rest() {
	// A client can have the whole answer before its handler has returned, and what
	// the handler notes last would be missing.
	done := make(chan bool)
	go func() { s.wg.Wait(); close(done) }()
	select {
	case <-done:
	case <-time.After(20 * time.Second):
	}
}
