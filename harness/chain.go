package main

import (
	"encoding/json"
	"errors"
	"fmt"
	"io"
	"net/http"
	"os"
	"path/filepath"
	"strings"
	"sync/atomic"
	"time"

	"github.com/meilihao/logx"
	"github.com/meilihao/water"
)

// Family "chain": one request running through a chain of handlers (C02, S01, S03).

type cStep struct {
	A string `json:"a"`
	C int    `json:"c"`
	N int    `json:"n"`
}
type cHandler struct {
	Kind  string  `json:"kind"`
	Form  string  `json:"form"`
	Steps []cStep `json:"steps"`
}
type cEv struct {
	E string `json:"e"`
	H int    `json:"h"`
	J int    `json:"j"`
	W bool   `json:"w"`
	C int    `json:"c"`
	X string `json:"x,omitempty"`
}
type cObs struct {
	Evs   []cEv   `json:"evs"`
	Esc   bool    `json:"esc"`
	Codes []int   `json:"codes"`
	Early bool    `json:"early"`
	Leaks [][]int `json:"leaks"`
}
type cScen struct {
	Id     string     `json:"id"`
	Hs     []cHandler `json:"hs"`
	Stable bool       `json:"stable"`
	Nf     bool       `json:"nf"`
	Before int        `json:"before"`
	Method string     `json:"method"`
	Reps   int        `json:"reps"`
	Obs    []cObs     `json:"obs"`
	Wire   bool       `json:"wire"`
	Caps   string     `json:"caps"` // what the writer can do
	Net    cNet       `json:"net"`
}

// cNet is what a client of a real server got.
type cNet struct {
	Code int    `json:"code"`
	Err  string `json:"err"`
	N    int    `json:"n"`
	Fl   []bool `json:"fl"` // for every flush: had what was written arrived
}

func init() { families["chain"] = Family{Gen: chainGen, Exec: chainExec} }

type cRun struct {
	e      *Env
	s      *cScen
	o      *cObs
	tokens map[[2]int]string
	srv    *srv
	wrote  int64
	taken  bool
	read   func(n int, ctx *water.Context) string
	print  func(ctx *water.Context) string
}

func (r *cRun) ev(e string, h, j int, ctx *water.Context) {
	r.o.Evs = append(r.o.Evs, cEv{E: e, H: h, J: j, W: ctx.Written(), C: ctx.Status()})
}

type badStringer struct{}

func (badStringer) String() string { panic("no string") }

type ptrErr struct{ s string }

func (p *ptrErr) Error() string { return p.s }

type bigStruct struct {
	A string
	B []int
}

const panicKinds = 14

// boom panics; its text is unique for the step when uniq.
func (r *cRun) boom(h, j, kind int, uniq bool) {
	t := fmt.Sprintf("boom_%d_%d_%d", h, j, kind)
	switch kind % panicKinds {
	case 1:
		r.tokens[[2]int{h, j}] = t
		panic(errors.New(t))
	case 2:
		r.tokens[[2]int{h, j}] = itoa(7310000 + h*1000 + j)
		panic(7310000 + h*1000 + j)
	case 3:
		r.tokens[[2]int{h, j}] = t
		panic(bigStruct{t, []int{1, 2}})
	case 4:
		var a []int
		i := 7320000 + h*1000 + j
		r.tokens[[2]int{h, j}] = itoa(i)
		_ = a[i]
	case 5:
		r.tokens[[2]int{h, j}] = t
		panic(fmt.Errorf("wrapped: %w", &ptrErr{t}))
	case 6:
		r.tokens[[2]int{h, j}] = t
		panic(t + " %d %s %!" + strings.Repeat("ü", 5000))
	case 7:
		var m map[string]int
		m["x"] = 1
	case 8:
		var p *ptrErr
		_ = p.s
	case 9:
		panic(http.ErrAbortHandler)
	case 10:
		panic(badStringer{})
	case 11:
		var p *ptrErr
		panic(error(p))
	case 12: // recovered as nil before go 1.21
		os.Setenv("GODEBUG", "panicnil="+itoa((h+j)%2))
		panic(nil)
	case 13:
		var x interface{} = "s"
		_ = x.(int)
	}
	r.tokens[[2]int{h, j}] = t
	panic(t)
}

type xmlT struct{ A, B string }

func (r *cRun) step(h, j int, s cStep, ctx *water.Context) {
	b := []byte{}
	if s.A != "read" {
		b = []byte(strings.Repeat("b", s.N))
	}
	f := filepath.Join(r.e.Scratch, "chain", "f.txt")
	switch s.A {
	case "next":
		ctx.Next()
	case "hdr":
		ctx.WriteHeader(s.C)
	case "badhdr":
		ctx.WriteHeader(s.C)
	case "abort":
		ctx.Abort(s.C)
	case "write":
		n, _ := ctx.Write(b)
		r.wrote += int64(n)
	case "bytes":
		ctx.WriteHeader(s.C)
		ctx.Write(b)
		ctx.Write(b)
	case "string":
		ctx.String(s.C, string(b))
	case "data":
		ctx.Data(s.C, "application/x-thing", b)
	case "html":
		ctx.HTMLRaw(s.C, string(b))
	case "json":
		ctx.JSON(s.C, []string{string(b)})
	case "xml":
		ctx.XML(s.C, xmlT{A: string(b)})
	case "tpl":
		ctx.HTML(s.C, "t", nil)
	case "stream", "nostream":
		ctx.Stream("text/x-s", strings.NewReader(string(b)))
	case "moved":
		ctx.MovedPermanently("/x")
	case "found":
		ctx.Found("/y?z=1")
	case "notmod":
		ctx.NotModified()
	case "bad":
		ctx.BadRequest()
	case "unauth":
		ctx.Unauthorized()
	case "forbid":
		ctx.Forbidden()
	case "notfound":
		ctx.NotFound()
	case "ise":
		ctx.InternalServerError()
	case "file":
		ctx.File(f)
	case "nofile":
		ctx.File(f + ".none")
	case "direct":
		ctx.File(filepath.Dir(f))
	case "serve":
		ctx.ServeFile(f)
	case "download":
		ctx.Download(f)
	case "nodownload":
		ctx.Download(f + ".none")
	case "dirdownload":
		ctx.Download(filepath.Dir(f))
	case "attach":
		ctx.Attachment("n.txt", time.Unix(1, 0), strings.NewReader(string(b)))
	case "stdnotfound":
		http.NotFound(ctx, ctx.Request)
	case "stderr":
		http.Error(ctx, "oops", s.C)
	case "stdredir":
		http.Redirect(ctx, ctx.Request, "/z", s.C)
	case "stdfile":
		http.ServeFile(ctx, ctx.Request, f)
	case "stdcontent":
		http.ServeContent(ctx, ctx.Request, "c.txt", time.Time{}, strings.NewReader(string(b)))
	case "header":
		ctx.SetHeader("X-A", "1")
		ctx.NoCache()
	case "declare":
		ctx.SetHeader("Content-Length", itoa(s.N))
	case "cookie":
		ctx.SetCookie("a", "b")
	case "read":
		x := r.read(s.N, ctx)
		r.o.Evs = append(r.o.Evs, cEv{E: "read", H: h, J: j, W: ctx.Written(), C: ctx.Status(), X: x})
	case "req":
		r.o.Evs = append(r.o.Evs, cEv{E: "read", H: h, J: j, W: ctx.Written(), C: ctx.Status(), X: r.print(ctx)})
	case "flush":
		interface{}(ctx).(http.Flusher).Flush()
		if r.srv != nil && r.s.Caps != "bare" && !r.taken {
			want := r.wrote
			if r.s.Method == "HEAD" {
				want = 0
			}
			ok := false
			for i := 0; i < 1000 && !ok; i++ {
				if ok = atomic.LoadInt64(&r.srv.n) > want; !ok {
					time.Sleep(5 * time.Millisecond)
				}
			}
			r.s.Net.Fl = append(r.s.Net.Fl, ok)
		}
	case "hijack":
		c, _, err := interface{}(ctx).(http.Hijacker).Hijack()
		if err != nil {
			break
		}
		r.taken = true
		if r.srv != nil {
			io.WriteString(c, "HTTP/1.1 299 Mine\r\nContent-Length: 2\r\nConnection: close\r\n\r\nok")
		}
		c.Close()
	case "notify":
		select {
		case <-interface{}(ctx).(http.CloseNotifier).CloseNotify():
			r.ev("gone", h, j, ctx)
		default:
		}
	case "look":
		ctx.Environ.Has("x")
	case "panic":
		r.boom(h, j, s.C, s.N == 1)
	default:
		die(errors.New("step " + s.A))
	}
}

func (r *cRun) handler(h int) interface{} {
	hd := r.s.Hs[h-1]
	switch hd.Kind {
	case "recovery":
		return water.Recovery()
	case "logger", "logoff":
		return water.Logger()
	case "cors", "preflight":
		return water.CORS(water.CORSConfig{})
	}
	f := func(ctx *water.Context) {
		r.ev("start", h, 0, ctx)
		done := false
		defer func() {
			if !done {
				r.ev("unwind", h, 0, ctx)
			}
		}()
		for j, s := range hd.Steps {
			e := "step"
			if s.A == "trynext" {
				func() {
					ok := false
					defer func() {
						if !ok {
							recover()
							e = "caught"
						}
					}()
					ctx.Next()
					ok = true
				}()
			} else {
				r.step(h, j+1, s, ctx)
			}
			r.ev(e, h, j+1, ctx)
		}
		done = true
		r.ev("end", h, 0, ctx)
	}
	form := hd.Form
	if form == "mix" {
		form = []string{"native", "std", "object", "stdfunc", "handlerfunc", "ptr", "wrapped", "httpfunc"}[(h*3+len(hd.Steps)+len(r.s.Hs))%8]
	}
	return asForm(form, f)
}

type ptrObj struct{ f func(*water.Context) }

func (o *ptrObj) ServeHTTP(c *water.Context) { o.f(c) }

// asForm gives f as one of the kinds of handler water takes.
func asForm(form string, f func(*water.Context)) interface{} {
	switch form {
	case "object":
		return objHandler{f}
	case "ptr":
		return &ptrObj{f}
	case "handlerfunc":
		return water.HandlerFunc(f)
	case "std":
		return stdHandler{f}
	case "stdfunc":
		return func(w http.ResponseWriter, q *http.Request) { f(w.(*water.Context)) }
	case "httpfunc":
		return http.HandlerFunc(func(w http.ResponseWriter, q *http.Request) { f(w.(*water.Context)) })
	case "wrapped":
		return water.WrapHandler(func(c *water.Context) { f(c) })
	case "wrapstd":
		return water.WrapHandler(stdHandler{f})
	}
	return f
}

var handlerForms = []string{"native", "object", "ptr", "handlerfunc", "std", "stdfunc", "httpfunc", "wrapped", "wrapstd"}

// logTo sends the framework's log to a file until undone; level 6 drops everything.
func quietLog() {
	l := logx.NewLogger()
	l.SetLevel(99)
	logx.SetOutput(l)
}

func chainExec(e *Env, raw json.RawMessage) (interface{}, error) {
	var s cScen
	if err := dec(raw, &s); err != nil {
		return nil, err
	}
	s.Obs = []cObs{}
	s.Net.Fl = []bool{}
	dir := filepath.Join(e.Scratch, "chain")
	if _, err := os.Stat(dir); err != nil {
		die(os.MkdirAll(dir, 0755))
		die(os.WriteFile(filepath.Join(dir, "f.txt"), []byte("file content"), 0644))
	}
	r := &cRun{e: e, s: &s}
	router := water.NewRouter()
	hs := []interface{}{}
	water.LogClose = true
	for i := range s.Hs {
		if s.Hs[i].Kind == "logger" {
			water.LogClose = false
		}
		hs = append(hs, r.handler(i+1))
	}
	defer func() { water.LogClose = true }()
	water.Status = water.Dev
	if s.Stable {
		water.Status = water.Stable
	}
	defer func() { water.Status = water.Dev }()
	quietLog()
	b := s.Before
	if b > len(hs) {
		b = len(hs)
	}
	opts := []water.Option{}
	router.Before(hs[:b]...)
	path := "/r"
	if s.Nf {
		opts = append(opts, water.WithNoFoundHandlers(hs[b:]...))
		path = "/nope"
		router.GET("/other", func(*water.Context) {})
	} else {
		m := b + (len(hs)-b)/2
		if m == len(hs) && m > b {
			m--
		}
		router.Use(hs[b:m]...)
		regAs(router, s.Method, "/r", hs[m:]...)
	}
	eng := router.Handler(opts...)
	for i := 0; i < s.Reps; i++ {
		o := cObs{Evs: []cEv{}, Codes: []int{}, Leaks: [][]int{}}
		r.o = &o
		r.tokens = map[[2]int]string{}
		r.wrote, r.taken = 0, false
		w := newRec()
		w.hook = func(code int) { o.Evs = append(o.Evs, cEv{E: "H", C: code}) }
		ok := false
		func() {
			defer func() {
				if !ok {
					recover()
					o.Esc = true
				}
			}()
			var body io.Reader
			if s.Method != "GET" && s.Method != "HEAD" {
				body = strings.NewReader("{}")
			}
			var rw http.ResponseWriter = w
			if s.Caps == "full" {
				rw = recAll{w}
			} else if s.Caps == "bare" {
				rw = struct{ http.ResponseWriter }{w}
			}
			eng.ServeHTTP(rw, newReq(s.Method, path, "1.1", body))
			ok = true
		}()
		o.Codes = append(o.Codes, w.codes...)
		o.Early = len(w.calls) > 0 && w.calls[0][0] == 'W'
		text := w.body.String()
		for hj, t := range r.tokens {
			if strings.Contains(text, t) && s.Hs[hj[0]-1].Steps[hj[1]-1].N == 1 {
				o.Leaks = append(o.Leaks, []int{hj[0], hj[1]})
			}
		}
		s.Obs = append(s.Obs, o)
	}
	if s.Wire {
		r.o = &cObs{}
		r.wrote, r.taken = 0, false
		var srv *srv
		switch s.Caps {
		case "flush":
			srv = newSrv2(eng)
		case "bare":
			srv = newSrv(http.HandlerFunc(func(w http.ResponseWriter, q *http.Request) { eng.ServeHTTP(struct{ http.ResponseWriter }{w}, q) }))
		default:
			srv = newSrv(eng)
		}
		r.srv = srv
		var body []byte
		if s.Method != "GET" && s.Method != "HEAD" {
			body = []byte("{}")
		}
		a := srv.do(s.Method, path, nil, body)
		srv.close()
		s.Net = cNet{a.Code, a.Err, len(a.Body), s.Net.Fl}
	}
	return s, nil
}

// ---------------------------------------------------------------- generation

var codesPool = []int{200, 201, 202, 204, 206, 299, 300, 304, 400, 401, 403, 404, 409, 418, 451, 499, 500, 501, 503, 599, 999}

func genStep(e *Env, profile string) cStep {
	r := e.R
	c := codesPool[r.Intn(len(codesPool))]
	n := []int{0, 1, 3, 40, 600, 5000, 70000}[r.Intn(7)]
	given := []string{"hdr", "string", "data", "html", "json", "xml", "abort", "tpl", "stderr", "stdredir", "bytes"}
	named := []string{"moved", "found", "notmod", "bad", "unauth", "forbid", "notfound", "ise", "file", "nofile", "direct", "serve",
		"download", "attach", "stdnotfound", "stdfile", "stdcontent", "write", "write", "stream"}
	none := []string{"look", "nodownload", "dirdownload", "header", "cookie", "declare", "declare"}
	p := func() cStep {
		k := r.Intn(panicKinds)
		u := 1
		if k >= 7 && k != 14 {
			u = 0
		}
		return cStep{A: "panic", C: k, N: u}
	}
	d := r.Intn(100)
	switch profile {
	case "S05":
		switch {
		case d < 20:
			return cStep{A: "next"}
		case d < 23:
			return cStep{A: "trynext"}
		case d < 30:
			return p()
		case d < 33:
			return cStep{A: pick(r, none...)}
		case d < 48:
			return cStep{A: "flush"}
		case d < 56:
			return cStep{A: "hijack"}
		case d < 60:
			return cStep{A: "notify"}
		case d < 75:
			return cStep{A: "write", N: n}
		}
	case "C02":
		switch {
		case d < 45:
			return cStep{A: "next"}
		case d < 50:
			return cStep{A: "trynext"}
		case d < 54:
			return p()
		case d < 75:
			return cStep{A: pick(r, none...)}
		}
	case "S01":
		switch {
		case d < 22:
			return cStep{A: "next"}
		case d < 25:
			return cStep{A: "trynext"}
		case d < 28:
			return p()
		case d < 31:
			return cStep{A: "badhdr", C: []int{0, 1, 99, 1000, -1}[r.Intn(5)]}
		case d < 40:
			return cStep{A: pick(r, none...)}
		}
	case "S03":
		switch {
		case d < 40:
			return cStep{A: "next"}
		case d < 43:
			return cStep{A: "trynext"}
		case d < 64:
			return p()
		case d < 67:
			return cStep{A: "badhdr", C: []int{0, 1, 99, 1000, -1}[r.Intn(5)]}
		case d < 80:
			return cStep{A: pick(r, none...)}
		}
	}
	if r.Intn(2) == 0 {
		return cStep{A: pick(r, given...), C: c, N: n}
	}
	s := cStep{A: pick(r, named...), N: n}
	if s.A == "stream" && n > 5000 { // one piece
		s.N = 5000
	}
	if s.A == "stream" && n == 0 {
		s.A = "nostream"
	}
	return s
}

var capsPool = []string{"full", "full", "flush", "bare"}

func chainGen(e *Env) []interface{} {
	out := []interface{}{}
	r := e.R
	for i := 0; i < e.N; i++ {
		s := cScen{Id: "c" + itoa(i), Stable: r.Intn(2) == 0, Nf: r.Intn(6) == 0, Method: pick(r, "GET", "GET", "POST", "PUT", "HEAD", "DELETE", "PATCH"), Reps: 1 + r.Intn(3)}
		n := 1 + r.Intn(6)
		long := r.Intn(25) == 0
		if long {
			n = []int{9, 17, 33, 64, 65, 130, 300}[r.Intn(7)]
		}
		pure := r.Intn(20) == 0 // nothing cuts it short
		if pure {
			n = []int{16, 33, 63, 64, 65, 127, 128, 129, 200, 256, 257, 300}[r.Intn(12)]
			long = true
		}
		logOn := r.Intn(2) == 0
		rec := (e.Profile == "S03" || e.Profile == "S05" && r.Intn(2) == 0) && r.Intn(12) > 0
		recAt := 0
		if rec {
			recAt = r.Intn(1 + (n-1)/2)
		}
		for x := 0; x < n; x++ {
			h := cHandler{Kind: "user", Form: pick(r, handlerForms...), Steps: []cStep{}}
			switch {
			case rec && x == recAt, r.Intn(14) == 0:
				h.Kind = "recovery"
			case r.Intn(20) == 0:
				h.Kind = "logger"
				if !logOn {
					h.Kind = "logoff"
				}
			case r.Intn(20) == 0:
				h.Kind = "cors"
				if s.Method == "OPTIONS" {
					h.Kind = "preflight"
				}
			}
			if h.Kind == "user" {
				m := r.Intn(4)
				if e.Profile == "S05" && r.Intn(3) == 0 {
					m += r.Intn(5)
				}
				if long {
					m = r.Intn(2)
				}
				for ; m > 0; m-- {
					st := genStep(e, e.Profile)
					if pure {
						st = cStep{A: pick(r, "next", "look", "look")}
					} else if long && st.A != "next" && x < n*3/4 && r.Intn(10) > 0 {
						st = cStep{A: pick(r, "next", "look")}
					}
					h.Steps = append(h.Steps, st)
				}
			}
			s.Hs = append(s.Hs, h)
		}
		if rec && !long && recAt+1 < n && r.Intn(8) == 0 { // nothing sent before, headers set, then a panic
			x := recAt + 1 + r.Intn(n-recAt-1)
			for y := 0; y <= x; y++ {
				s.Hs[y].Steps = []cStep{}
				if y != recAt && s.Hs[y].Kind == "recovery" {
					s.Hs[y].Kind = "user"
				}
			}
			p := genStep(e, "S03")
			for p.A != "panic" {
				p = genStep(e, "S03")
			}
			s.Hs[x] = cHandler{Kind: "user", Form: pick(r, handlerForms...), Steps: []cStep{{A: pick(r, "declare", "header", "cookie")}, {A: "declare", N: []int{0, 1, 3, 40, 600, 5000, 100000}[r.Intn(7)]}, p}}
		}
		if r.Intn(12) == 0 {
			s.Method = "OPTIONS"
			for x := range s.Hs {
				if s.Hs[x].Kind == "cors" {
					s.Hs[x].Kind = "preflight"
				}
			}
			if r.Intn(2) == 0 {
				x := r.Intn(len(s.Hs))
				s.Hs[x] = cHandler{Kind: "preflight", Steps: []cStep{}}
			}
		}
		s.Before = r.Intn(len(s.Hs) + 1)
		if s.Nf && s.Before == len(s.Hs) || !s.Nf && r.Intn(3) == 0 {
			s.Before = 0
		}
		if e.Profile == "S05" {
			s.Caps = pick(r, capsPool...)
			for x := range s.Hs {
				for y := range s.Hs[x].Steps {
					if st := &s.Hs[x].Steps[y]; st.A == "hijack" && s.Caps == "full" {
						st.N = 1
					}
				}
			}
		}
		s.Wire = (e.Profile == "S03" || e.Profile == "S01" || e.Profile == "S05") && !long && r.Intn(3) == 0
		count("handlers")
		out = append(out, s)
	}
	return out
}
