package main

import (
	"bufio"
	"bytes"
	"encoding/json"
	"errors"
	"fmt"
	"io"
	"math/rand"
	"net"
	"net/http"
	"net/http/httptest"
	"sort"
	"strings"
	"time"

	"github.com/meilihao/water"
)

// Family "input": headers and bodies as handlers see them (Q05).

type iOp struct {
	A    string `json:"a"`
	Name string `json:"name"`
	V    string `json:"v"`
	N    int    `json:"n"`
}
type iReq struct {
	M       string     `json:"m"`
	Hs      [][]string `json:"hs"`
	Size    int        `json:"size"`
	Fail    int        `json:"fail"` // reading breaks off after so many bytes; -1: it does not
	Wire    bool       `json:"wire"` // over a real connection
	Chunked bool       `json:"chunked"`
	Mid     int        `json:"mid"` // so many of the operations happen in a middleware
	Seed    int64      `json:"seed"`
	Ops     []iOp      `json:"ops"`
}
type iAns struct {
	Panic string `json:"panic"`
	S     string `json:"s"`
	Off   int    `json:"off"`
	N     int    `json:"n"`
	Eq    bool   `json:"eq"`
	Err   bool   `json:"err"`
}
type iObs struct {
	Rs   []iAns     `json:"rs"`
	Kept bool       `json:"kept"`
	Out  [][]string `json:"out"`
}
type iScen struct {
	Id  string `json:"id"`
	Qs  []iReq `json:"qs"`
	Obs []iObs `json:"obs"`
}

func init() { families["input"] = Family{Gen: inputGen, Exec: inputExec} }

// iBody is a body any part of which can be told from any other.
func iBody(seed int64, n int) []byte {
	b := make([]byte, n)
	rand.New(rand.NewSource(seed)).Read(b)
	return b
}

// breaking reads data and then fails.
type breaking struct {
	b    *bytes.Reader
	n    int
	fail bool
}

func (r *breaking) Read(p []byte) (int, error) {
	if len(p) > r.n {
		p = p[:r.n] // comes in pieces
	}
	n, err := r.b.Read(p)
	if err == io.EOF && r.fail {
		err = errors.New("broken")
	}
	return n, err
}

type iRun struct {
	q    *iReq
	body []byte
	pos  int
	o    *iObs
	kept [][2][]byte
	done int
}

func (r *iRun) ops(c *water.Context, n int) {
	for ; r.done < n; r.done++ {
		op := r.q.Ops[r.done]
		a := iAns{Eq: true}
		a.Panic = caught(func() { r.op(c, op, &a) })
		r.o.Rs = append(r.o.Rs, a)
	}
}

// told notes that b was handed out as the next part of the body.
func (r *iRun) told(b []byte, err error, a *iAns) {
	a.Err, a.N, a.Off = err != nil, len(b), r.pos
	a.Eq = r.pos+len(b) <= len(r.body) && bytes.Equal(b, r.body[r.pos:r.pos+len(b)])
	r.pos += len(b)
}

func (r *iRun) op(c *water.Context, op iOp, a *iAns) {
	switch op.A {
	case "get":
		a.S = c.GetHeader(op.Name)
	case "set":
		c.SetHeader(op.Name, op.V)
	case "start":
		c.WriteHeader(200)
	case "bytes":
		b, err := c.BodyBytes()
		r.told(b, err, a)
		r.kept = append(r.kept, [2][]byte{b, append([]byte(nil), b...)})
	case "text":
		s, err := c.BodyString()
		r.told([]byte(s), err, a)
		r.kept = append(r.kept, [2][]byte{[]byte(s), []byte(s)})
	case "read":
		b := make([]byte, op.N)
		n, rc := 0, c.ReadCloser()
		var err error
		for n < op.N && err == nil {
			var k int
			k, err = rc.Read(b[n:])
			n += k
		}
		if n == op.N || err == io.EOF {
			err = nil
		}
		r.told(b[:n], err, a)
	case "all":
		b, err := io.ReadAll(c.ReadCloser())
		r.told(b, err, a)
	default:
		die(fmt.Errorf("op %s", op.A))
	}
	if a.Err && (op.A == "bytes" || op.A == "text") {
		r.pos = len(r.body) // whatever was read is lost
		if r.q.Fail >= 0 {
			r.pos = r.q.Fail
		}
	}
}

// headers that nothing but a handler sets here
var iSome = []string{"Vary", "vary", "Link", "Etag", "ETag", "Content-Language", "Cache-Control", "Set-Cookie", "Location", "Allow", "Warning", "Content-Type", "Access-Control-Allow-Origin", "Expires", "Last-Modified", "Www-Authenticate", "Server", "Retry-After"}
var iSets = func() map[string]bool {
	m := map[string]bool{}
	for _, n := range iSome {
		m[strings.ToLower(n)] = true
	}
	return m
}()

// one server for all scenarios: closing one waits for its connections to linger
var (
	inputTS *httptest.Server
	inputH  http.HandlerFunc
)

func inputExec(e *Env, raw json.RawMessage) (interface{}, error) {
	var s iScen
	if err := dec(raw, &s); err != nil {
		return nil, err
	}
	s.Obs = []iObs{}
	var cur *iRun
	ran := make(chan bool, 1)
	r := water.NewRouter()
	r.Use(func(c *water.Context) { cur.ops(c, cur.q.Mid); c.Next() })
	for _, m := range allMethods {
		regAs(r, m, "/in", func(c *water.Context) {
			cur.ops(c, len(cur.q.Ops))
			if !c.Written() {
				c.WriteHeader(200)
			}
		})
	}
	eng := r.Handler()
	runs := []*iRun{}
	for i := range s.Qs {
		q := &s.Qs[i]
		if q.Mid > len(q.Ops) {
			q.Mid = len(q.Ops)
		}
		cur = &iRun{q: q, body: iBody(q.Seed, q.Size), o: &iObs{Rs: []iAns{}, Out: [][]string{}}}
		runs = append(runs, cur)
		upto := q.Size
		if q.Fail >= 0 {
			upto = q.Fail
		}
		var h http.Header
		if q.Wire {
			if inputTS == nil {
				inputTS = httptest.NewServer(http.HandlerFunc(func(w http.ResponseWriter, q *http.Request) { inputH(w, q) }))
			}
			inputH = func(w http.ResponseWriter, q *http.Request) {
				defer func() { ran <- true }()
				eng.ServeHTTP(w, q)
			}
			c, err := net.Dial("tcp", inputTS.Listener.Addr().String())
			die(err)
			var b bytes.Buffer
			fmt.Fprintf(&b, "%s /in HTTP/1.1\r\nHost: example.com\r\n", q.M)
			for _, h := range q.Hs {
				fmt.Fprintf(&b, "%s: %s\r\n", h[0], h[1])
			}
			if q.Chunked {
				b.WriteString("Transfer-Encoding: chunked\r\n\r\n")
				for p := 0; p < upto; {
					n := 1 + (p*7+int(q.Seed))%5000
					if n > upto-p {
						n = upto - p
					}
					fmt.Fprintf(&b, "%x\r\n%s\r\n", n, cur.body[p:p+n])
					p += n
				}
				if q.Fail < 0 {
					b.WriteString("0\r\n\r\n")
				}
			} else {
				fmt.Fprintf(&b, "Content-Length: %d\r\n\r\n", q.Size)
				b.Write(cur.body[:upto])
			}
			c.SetDeadline(time.Now().Add(20 * time.Second))
			go func(fail bool) {
				c.Write(b.Bytes())
				if fail {
					c.(*net.TCPConn).CloseWrite()
				}
			}(q.Fail >= 0)
			p, err := http.ReadResponse(bufio.NewReader(c), &http.Request{Method: q.M})
			<-ran
			if err == nil {
				h = p.Header
				p.Body.Close()
			} else {
				cur.o.Out = append(cur.o.Out, []string{"no answer", ""})
			}
			c.Close()
		} else {
			w := newRec()
			in := newReq(q.M, "/in", "1.1", &breaking{bytes.NewReader(cur.body[:upto]), 1 + int(q.Seed%3000), q.Fail >= 0})
			in.ContentLength = int64(q.Size)
			if q.Chunked {
				in.ContentLength = -1
			}
			for _, h := range q.Hs {
				in.Header.Add(h[0], h[1])
			}
			if p := caught(func() { eng.ServeHTTP(w, in) }); p != "" {
				cur.o.Out = append(cur.o.Out, []string{p, ""})
			}
			if h = w.sent; h == nil {
				h = w.h
			}
		}
		for k, vs := range h {
			if l := strings.ToLower(k); strings.HasPrefix(l, "x-r") || iSets[l] {
				for _, v := range vs {
					cur.o.Out = append(cur.o.Out, []string{k, v})
				}
			}
		}
		sort.Slice(cur.o.Out, func(a, b int) bool { return cur.o.Out[a][0] < cur.o.Out[b][0] })
	}
	for _, r := range runs {
		r.o.Kept = true
		for _, k := range r.kept {
			r.o.Kept = r.o.Kept && bytes.Equal(k[0], k[1])
		}
		s.Obs = append(s.Obs, *r.o)
	}
	return s, nil
}

func inputGen(e *Env) []interface{} {
	r := e.R
	out := []interface{}{}
	names := []string{"X-A", "x-a", "X-a", "X-B", "Accept", "accept-LANGUAGE", "X-Long-Name-Of-It", "x", "Authorization", "X_Under", "X-1a-b", "Accept-Language"}
	for i := 0; i < e.N; i++ {
		s := iScen{Id: "r" + itoa(i)}
		for x := 1 + r.Intn(4); x > 0; x-- {
			q := iReq{M: pick(r, "POST", "PUT", "PATCH", "DELETE", "POST"), Hs: [][]string{}, Fail: -1, Wire: r.Intn(3) == 0, Chunked: r.Intn(3) == 0,
				Size: []int{0, 1, 5, 511, 512, 513, 4096, 40000, 1 << 20, 3<<20 + r.Intn(9), r.Intn(300000)}[r.Intn(11)], Seed: int64(r.Intn(1 << 20)), Ops: []iOp{}}
			if q.Size > 1 && r.Intn(5) == 0 {
				q.Fail = []int{0, q.Size - 1, r.Intn(q.Size)}[r.Intn(3)]
			}
			if q.Size == 0 && q.Chunked && q.Wire && r.Intn(2) == 0 {
				q.Chunked = false
			}
			for y := r.Intn(6); y > 0; y-- {
				q.Hs = append(q.Hs, []string{names[r.Intn(len(names))], pick(r, "1", "two", "Mixed CASE", "Bearer AbC.dEf=", "a;B", "a, b", "", "x  y", "\"q\"; v=1", "text/html;q=0.9", "%41+", strings.Repeat("l", 900))})
			}
			for y := 1 + r.Intn(7); y > 0; y-- {
				op := iOp{A: pick(r, "get", "get", "bytes", "text", "read", "read", "all", "set", "set", "start")}
				switch op.A {
				case "get":
					op.Name = names[r.Intn(len(names))]
					if r.Intn(3) == 0 {
						op.Name = strings.ToUpper(op.Name)
					}
				case "set":
					op.Name, op.V = pick(r, "X-R", "x-r", "X-Rb", "X-RB", "X-R-Long-name"), pick(r, "1", "2", "three four", "a,b", "q\"", "")
					if r.Intn(2) == 0 {
						op.Name = pick(r, iSome...)
					}
					if len(q.Ops) > 0 && q.Ops[len(q.Ops)-1].A == "set" && r.Intn(2) == 0 {
						op.Name = q.Ops[len(q.Ops)-1].Name
					}
				case "read":
					op.N = []int{1, 2, 100, q.Size / 2, q.Size, q.Size + 1}[r.Intn(6)]
				}
				q.Ops = append(q.Ops, op)
			}
			q.Mid = r.Intn(len(q.Ops) + 1)
			s.Qs = append(s.Qs, q)
		}
		out = append(out, s)
	}
	return out
}
