package main

import (
	"crypto/ecdsa"
	"crypto/elliptic"
	crand "crypto/rand"
	"crypto/tls"
	"crypto/x509"
	"encoding/json"
	"encoding/pem"
	"fmt"
	"io"
	"log"
	"math/big"
	"math/rand"
	"net"
	"net/http"
	"os"
	"path/filepath"
	"sort"
	"strings"
	"sync"
	"time"

	"github.com/meilihao/water"
)

// Family "mount": engines as HTTP handlers of servers and of each other (N01).

type mStep struct {
	A string `json:"a"`
	C int    `json:"c"`
	V string `json:"v"`
}
type mHandler struct {
	Id    int     `json:"id"`
	K     string  `json:"k"`
	E     int     `json:"e"`
	P     string  `json:"p"`
	Steps []mStep `json:"steps"`
}
type mRoute struct {
	M   string     `json:"m"`
	Uri string     `json:"uri"`
	Hs  []mHandler `json:"hs"`
}
type mEngine struct {
	Before []mHandler `json:"before"`
	Mids   []mHandler `json:"mids"`
	Routes []mRoute   `json:"routes"`
	Nf     []mHandler `json:"nf"`
}
type mEv struct {
	E    string     `json:"e"`
	H    int        `json:"h"`
	J    int        `json:"j"`
	D    int        `json:"-"`
	W    bool       `json:"w"`
	C    int        `json:"c"`
	Full string     `json:"full"`
	Ps   [][]string `json:"ps"`
	Env  []int      `json:"env"`
	X    string     `json:"x"` // the value of a panic caught
}
type mObs struct {
	Evs     []mEv  `json:"evs"`
	Esc     bool   `json:"esc"`
	Val     string `json:"val"`
	Codes   []int  `json:"codes"`
	Body    string `json:"body"`
	Reached bool   `json:"reached"`
}
type mScen struct {
	Id      string    `json:"id"`
	How     string    `json:"how"`
	H2      bool      `json:"h2"`
	Static  bool      `json:"static"`
	Refuse  string    `json:"refuse"`
	Refused string    `json:"refused"`
	Engines []mEngine `json:"engines"`
	Qs      []fReq    `json:"qs"`
	Obs     []mObs    `json:"obs"`
}

func init() { families["mount"] = Family{Gen: mountGen, Exec: mountExec} }

type mRun struct {
	s  *mScen
	mu sync.Mutex
	o  *mObs
}

type mBoom struct{ h, k int }

// value names what was raised by the handlers here, "" if nothing, "other" if it is none of theirs.
func value(p interface{}) string {
	name := func(h, k int) string { return "h" + itoa(h) + "k" + itoa(k) }
	switch v := p.(type) {
	case nil:
		return ""
	case string:
		if h := 0; true {
			if n, _ := fmt.Sscanf(v, "mounted %d", &h); n == 1 && v == "mounted "+itoa(h) {
				return name(h, 0)
			}
		}
	case mBoom:
		return name(v.h, v.k)
	case *mBoom:
		return name(v.h, v.k)
	case error:
		if v == http.ErrAbortHandler {
			return "abort"
		}
		if b, ok := v.(mErr); ok {
			return name(b.h, b.k)
		}
	}
	return "other"
}

type mErr mBoom

func (mErr) Error() string { return "an error" }

func (r *mRun) boom(h, k int) {
	switch k {
	case 1:
		panic(mErr{h, k})
	case 2:
		panic(http.ErrAbortHandler)
	case 3:
		panic(mBoom{h, k})
	case 4:
		panic(&mBoom{h, k})
	}
	panic("mounted " + itoa(h))
}

// try runs f and gives the value it panics with.
func try(f func()) (p interface{}) {
	defer func() { p = recover() }()
	f()
	return nil
}

func (r *mRun) ev(e string, h, j int, c *water.Context, x ...string) {
	v := mEv{E: e, H: h, J: j, W: c.Written(), C: c.Status(), Full: c.FullPath(), Ps: pairs(c.Params), Env: []int{}, X: strings.Join(x, "")}
	for k := range c.Environ {
		var id int
		fmt.Sscanf(k, "id%d", &id)
		v.Env = append(v.Env, id)
	}
	sort.Ints(v.Env)
	r.mu.Lock()
	r.o.Evs = append(r.o.Evs, v)
	r.mu.Unlock()
}

func (r *mRun) handler(h mHandler, es []*water.Engine) interface{} {
	switch h.K {
	case "recovery":
		return water.Recovery()
	case "engine":
		e := es[h.E]
		switch h.Id % 4 {
		case 0:
			return e
		case 1:
			return e.ServeHTTP
		case 2:
			return water.WrapHandler(e)
		}
		return func(c *water.Context) { e.ServeHTTP(c, c.Request) }
	case "strip":
		return http.StripPrefix(h.P, es[h.E])
	}
	return func(c *water.Context) {
		c.Set(fmt.Sprintf("id%d", h.Id), 1)
		r.ev("start", h.Id, 0, c)
		for j, s := range h.Steps {
			switch s.A {
			case "next":
				c.Next()
			case "try":
				if v := value(try(c.Next)); v != "" {
					r.ev("caught", h.Id, j+1, c, v)
					continue
				}
			case "hdr":
				c.WriteHeader(s.C)
			case "write":
				c.Write([]byte(s.V))
			case "look":
			case "panic":
				r.boom(h.Id, s.C)
			default:
				die(fmt.Errorf("step %s", s.A))
			}
			r.ev("step", h.Id, j+1, c)
		}
		r.ev("end", h.Id, 0, c)
	}
}

func (r *mRun) handlers(l []mHandler, es []*water.Engine) []interface{} {
	hs := []interface{}{}
	for _, h := range l {
		hs = append(hs, r.handler(h, es))
	}
	return hs
}

func (r *mRun) build() *water.Engine {
	n := len(r.s.Engines)
	es := make([]*water.Engine, n+1)
	for x := n; x > 0; x-- {
		d := r.s.Engines[x-1]
		rt := water.NewRouter()
		rt.Before(r.handlers(d.Before, es)...)
		rt.Use(r.handlers(d.Mids, es)...)
		for _, q := range d.Routes {
			regAs(rt, q.M, q.Uri, r.handlers(q.Hs, es)...)
		}
		opts := []water.Option{}
		if r.s.Static {
			opts = append(opts, water.WithStaticRouter(true))
		}
		if len(d.Nf) > 0 {
			opts = append(opts, water.WithNoFoundHandlers(r.handlers(d.Nf, es)...))
		}
		es[x] = rt.Handler(opts...)
	}
	return es[1]
}

func freePort() string {
	l, err := net.Listen("tcp", "127.0.0.1:0")
	die(err)
	defer l.Close()
	return l.Addr().String()
}

// certs makes a certificate for localhost.
func certs(e *Env) (string, string) {
	c, k := filepath.Join(e.Scratch, "cert.pem"), filepath.Join(e.Scratch, "key.pem")
	if _, err := os.Stat(c); err == nil {
		return c, k
	}
	key, err := ecdsa.GenerateKey(elliptic.P256(), crand.Reader)
	die(err)
	t := &x509.Certificate{SerialNumber: big.NewInt(1), NotBefore: time.Now().Add(-time.Hour), NotAfter: time.Now().Add(24 * time.Hour), DNSNames: []string{"localhost"}}
	der, err := x509.CreateCertificate(crand.Reader, t, t, &key.PublicKey, key)
	die(err)
	kb, err := x509.MarshalECPrivateKey(key)
	die(err)
	die(os.WriteFile(k, pem.EncodeToMemory(&pem.Block{Type: "EC PRIVATE KEY", Bytes: kb}), 0600))
	die(os.WriteFile(c, pem.EncodeToMemory(&pem.Block{Type: "CERTIFICATE", Bytes: der}), 0600))
	return c, k
}

// serve starts the engine as s.How says; it returns where it can be reached, "" if nowhere.
func (r *mRun) serve(e *Env, eng *water.Engine) string {
	for try := 0; ; try++ {
		addr := freePort()
		if r.s.How == "default" {
			addr = "127.0.0.1:8080"
			l, err := net.Listen("tcp", ":8080")
			if err != nil { // someone else's
				r.s.How = "Run"
				continue
			}
			l.Close()
		}
		ret := make(chan error, 1)
		go func() {
			var err error
			if p := caught(func() {
				switch r.s.How {
				case "Run":
					err = eng.Run(addr)
				case "ListenAndServe":
					err = eng.ListenAndServe(addr)
				case "default":
					err = eng.Run()
				case "RunTLS":
					c, k := certs(e)
					err = eng.RunTLS(addr, c, k)
				case "ListenAndServeTLS":
					c, k := certs(e)
					err = eng.ListenAndServeTLS(addr, c, k)
				default:
					die(fmt.Errorf("how %s", r.s.How))
				}
			}); p != "" {
				err = fmt.Errorf("%s", p)
			}
			ret <- err
		}()
		for i := 0; i < 400; i++ {
			select {
			case err := <-ret:
				if err != nil && strings.Contains(err.Error(), "address already in use") && try < 5 { // taken meanwhile
					if r.s.How == "default" && strings.Contains(err.Error(), ":8080") {
						r.s.How = "Run"
					}
					i = 1000
					continue
				}
				return ""
			default:
			}
			c, err := net.Dial("tcp", addr)
			if err == nil {
				c.Close()
				return addr
			}
			time.Sleep(5 * time.Millisecond)
			if i == 399 {
				return ""
			}
		}
	}
}

func (r *mRun) refuse(e *Env, eng *water.Engine) string {
	ret := make(chan string, 1)
	go func() {
		var err error
		p := caught(func() {
			c, k := certs(e)
			switch r.s.Refuse {
			case "busy":
				l, e2 := net.Listen("tcp", "127.0.0.1:0")
				die(e2)
				defer l.Close()
				err = eng.Run(l.Addr().String())
			case "badport":
				err = eng.Run("127.0.0.1:99999")
			case "badaddr":
				err = eng.ListenAndServe("no such place")
			case "two":
				err = eng.Run(freePort(), freePort())
			case "three":
				err = eng.Run(freePort(), freePort(), freePort())
			case "nocert":
				err = eng.RunTLS(freePort(), c+".none", k)
			case "badcert":
				err = eng.RunTLS(freePort(), k, c)
			case "nokey":
				err = eng.ListenAndServeTLS(freePort(), c, "")
			default:
				die(fmt.Errorf("refuse %s", r.s.Refuse))
			}
		})
		switch {
		case p != "":
			ret <- "panic"
		case err != nil:
			ret <- "error"
		default:
			ret <- "nil"
		}
	}()
	select {
	case s := <-ret:
		return s
	case <-time.After(5 * time.Second):
		return "serves"
	}
}

func mountExec(e *Env, raw json.RawMessage) (interface{}, error) {
	os.Setenv("PORT", "1") // says nothing about where Run serves
	var s mScen
	if err := dec(raw, &s); err != nil {
		return nil, err
	}
	s.Obs, s.Refused = []mObs{}, ""
	quietLog()
	log.SetOutput(io.Discard) // servers report panics there
	defer log.SetOutput(os.Stderr)
	r := &mRun{s: &s}
	eng := r.build()
	if s.How == "refuse" {
		s.Refused = r.refuse(e, eng)
		return s, nil
	}
	if s.How == "direct" {
		for _, q := range s.Qs {
			o := mObs{Evs: []mEv{}, Codes: []int{}, Reached: true}
			r.o = &o
			w := newRec()
			o.Val = value(try(func() { eng.ServeHTTP(w, newReq(q.M, q.Path, q.Proto, nil)) }))
			o.Esc = o.Val != ""
			o.Codes = append(o.Codes, w.codes...)
			o.Body = w.body.String()
			s.Obs = append(s.Obs, cut(o))
		}
		return s, nil
	}
	addr := r.serve(e, eng)
	count("served by " + s.How)
	tr := &http.Transport{DisableKeepAlives: true, TLSClientConfig: &tls.Config{InsecureSkipVerify: true}, ForceAttemptHTTP2: s.H2}
	defer tr.CloseIdleConnections()
	cl := &http.Client{Transport: tr, Timeout: 20 * time.Second, CheckRedirect: func(*http.Request, []*http.Request) error { return http.ErrUseLastResponse }}
	scheme := "http://"
	if strings.HasSuffix(s.How, "TLS") {
		scheme = "https://"
	}
	for _, q := range s.Qs {
		o := mObs{Evs: []mEv{}, Codes: []int{}, Reached: addr != ""}
		r.mu.Lock()
		r.o = &o
		r.mu.Unlock()
		hq, err := http.NewRequest(q.M, scheme+addr+q.Path, nil)
		die(err)
		p, err := cl.Do(hq)
		if err == nil {
			var b []byte
			if b, err = io.ReadAll(p.Body); err == nil {
				o.Codes, o.Body = append(o.Codes, p.StatusCode), string(b)
			}
			p.Body.Close()
		}
		r.mu.Lock()
		o.Esc = err != nil
		s.Obs = append(s.Obs, cut(o))
		r.o = &mObs{}
		r.mu.Unlock()
	}
	return s, nil
}

// cut keeps long reports of panics out of the trace.
func cut(o mObs) mObs {
	if len(o.Body) > 300 {
		o.Body = o.Body[:300]
	}
	return o
}

// ---------------------------------------------------------------- generation

type mgen struct {
	*rand.Rand
	ids int
	n   int
}

func (g *mgen) user(quiet bool) mHandler {
	g.ids++
	h := mHandler{Id: g.ids, K: "user", Steps: []mStep{}}
	st := func(a string) {
		s := mStep{A: a}
		switch a {
		case "hdr":
			s.C = []int{200, 201, 202, 403, 404, 500}[g.Intn(6)]
		case "write":
			s.V = pick(g.Rand, "a", "bc", "") + itoa(g.ids)
		case "panic":
			s.C = g.Intn(5)
		}
		h.Steps = append(h.Steps, s)
	}
	switch d := g.Intn(10); {
	case quiet && d < 8:
		if g.Intn(2) == 0 {
			st("next")
		}
	case d < 2:
	case d < 4:
		st(pick(g.Rand, "next", "next", "try"))
	case d < 9:
		for i := 1 + g.Intn(3); i > 0; i-- {
			st(pick(g.Rand, "next", "try", "hdr", "hdr", "write", "write", "look", "panic"))
		}
	default:
		st("panic")
	}
	return h
}

func (g *mgen) list(e, max int, quiet bool) []mHandler {
	l := []mHandler{}
	for i := g.Intn(max + 1); i > 0; i-- {
		switch d := g.Intn(10); {
		case d < 1:
			l = append(l, mHandler{K: "recovery", Steps: []mStep{}})
		case d < 4 && e < g.n && !quiet:
			l = append(l, g.mount(e))
		default:
			l = append(l, g.user(quiet))
		}
	}
	return l
}

func (g *mgen) mount(e int) mHandler {
	g.ids++
	h := mHandler{Id: g.ids, K: "engine", E: e + 1 + g.Intn(g.n-e), Steps: []mStep{}}
	if g.Intn(3) == 0 {
		h.K, h.P = "strip", pick(g.Rand, "/m", "/m", "/m/a", "/", "", "/zz")
	}
	return h
}

func mountGen(e *Env) []interface{} {
	r := e.R
	out := []interface{}{}
	for i := 0; i < e.N; i++ {
		g := &mgen{Rand: r, n: 1 + r.Intn(3)}
		s := mScen{Id: "r" + itoa(i), How: "direct", Static: r.Intn(4) == 0, Engines: []mEngine{}, Qs: []fReq{}}
		switch {
		case i == 0:
			s.How = "default"
		case r.Intn(6) == 0:
			s.How = pick(r, "Run", "ListenAndServe", "RunTLS", "ListenAndServeTLS")
			s.H2 = r.Intn(2) == 0
		case r.Intn(30) == 0:
			s.How, s.Refuse = "refuse", pick(r, "busy", "badport", "badaddr", "two", "three", "nocert", "badcert", "nokey")
		}
		for x := 1; x <= g.n; x++ {
			en := mEngine{Before: g.list(x, 1, true), Mids: g.list(x, 2, true), Routes: []mRoute{}, Nf: []mHandler{}}
			uris := []string{"/m/a", "/m/:p" + itoa(x), "/m/*", "/m/*r" + itoa(x), "/a", "/a/b", "/:q" + itoa(x), "/", "/*", "/:s" + itoa(x) + "/b"}
			r.Shuffle(len(uris), func(a, b int) { uris[a], uris[b] = uris[b], uris[a] })
			glob := false
			for _, u := range uris[:1+r.Intn(4)] {
				if u == "/m/*" || u == "/m/*r"+itoa(x) {
					if glob {
						continue
					}
					glob = true
				}
				hs := g.list(x, 3, false)
				if x < g.n && r.Intn(2) == 0 {
					hs = append(hs, g.mount(x))
				}
				if len(hs) == 0 || r.Intn(4) == 0 {
					hs = append(hs, g.user(false))
				}
				en.Routes = append(en.Routes, mRoute{M: pick(r, "GET", "GET", "GET", "POST", "HEAD"), Uri: u, Hs: hs})
			}
			if r.Intn(3) == 0 {
				en.Nf = g.list(x, 2, false)
				if x < g.n && r.Intn(2) == 0 {
					en.Nf = append(en.Nf, g.mount(x))
				}
			}
			s.Engines = append(s.Engines, en)
		}
		for x := 2 + r.Intn(4); x > 0; x-- {
			q := fReq{M: pick(r, "GET", "GET", "GET", "POST", "HEAD", "BREW"), Path: pick(r, "/m/a", "/m/a", "/m/b", "/m/a/b", "/a", "/a/b", "/", "/m", "/q/b", "/zz"), Proto: "1.1"}
			if s.How == "direct" && r.Intn(12) == 0 {
				q.Proto = pick(r, "1.0", "2", "0.9")
			}
			s.Qs = append(s.Qs, q)
		}
		if s.How == "refuse" {
			s.Qs = []fReq{}
		}
		out = append(out, s)
	}
	return out
}
