package main

import (
	"bytes"
	"encoding/json"
	"fmt"
	"net/http"
	"os"
	"path/filepath"
	"runtime"
	"strconv"
	"strings"
	"sync"

	"github.com/meilihao/water"
	"github.com/meilihao/water/binding"
)

// Family "pool": several requests on one engine, one after the other,
// interleaved step by step, or running freely (I01, I02).

type plCfg struct {
	Nb   int  `json:"nb"`
	Nh   int  `json:"nh"`
	Nf   int  `json:"nf"`
	Rec  bool `json:"rec"`
	Stat bool `json:"stat"`
}
type plReq struct {
	Kind   string   `json:"kind"`
	Vals   []string `json:"vals"`
	Form   []string `json:"form"`
	Bad    bool     `json:"bad"`    // its query has a part that cannot be parsed
	Post   int      `json:"post"`   // how many of the form values are in the body
	Script []plOp   `json:"script"` // of a free-running request
}
type plOp struct {
	A    string `json:"a"`
	R    int    `json:"r"`
	Name string `json:"name"`
	V    string `json:"v"`
	N    int    `json:"n"`
}
type plObs struct {
	V      string     `json:"v"`
	Done   bool       `json:"done"`
	Esc    bool       `json:"esc"`
	Codes  []int      `json:"codes"`
	Body   string     `json:"body"`
	R      int        `json:"r"`
	Pos    int        `json:"pos"`
	W      bool       `json:"w"`
	Code   int        `json:"code"`
	Full   string     `json:"full"`
	Ps     [][]string `json:"ps"`
	Env    [][]string `json:"env"`
	Shared bool       `json:"shared"`
}
type plScen struct {
	Id    string     `json:"id"`
	Mode  string     `json:"mode"` // "gate" or "free"
	Cfg   plCfg      `json:"cfg"`
	Reqs  []plReq    `json:"reqs"`
	Lanes int        `json:"lanes"`
	Ops   []plOp     `json:"ops"`
	Obs   []plObs    `json:"obs"`
	Races int        `json:"races"`
	Kept  []plKept   `json:"kept"` // what a handler of a request kept, read at the end
	Alone []string   `json:"alone"`
	Conc  [][]string `json:"conc"`
	Calls []string   `json:"calls"` // of the "app" mode
}

type plKept struct {
	Any bool       `json:"any"`
	Ps  [][]string `json:"ps"`
	Env [][]string `json:"env"`
}

func init() { families["pool"] = Family{Gen: poolGen, Exec: poolExec} }

// ---------------------------------------------------------------- one request

type plRun struct {
	sync.Mutex
	by    map[int64]*plLive      // goroutine -> request
	owner map[*water.Context]int // contexts with a handler running
}
type plLive struct {
	run    *plRun
	id     int
	q      *http.Request
	w      *rec
	pos    []int
	cmd    chan plOp
	ready  chan struct{}
	free   bool
	k      int    // next of script
	ops    []plOp // done (free)
	s      plObs  // latest view
	v      string
	script []plOp
	obs    []plObs
	done   bool
	any    bool
	params water.Params
	env    water.Environ
}

func goid() int64 {
	var b [64]byte
	f := bytes.Fields(b[:runtime.Stack(b[:], false)])
	n, _ := strconv.ParseInt(string(f[1]), 10, 64)
	return n
}

func (u *plRun) acquire(c *water.Context, id int) (ok bool) {
	u.Lock()
	defer u.Unlock()
	if o, held := u.owner[c]; held && o != id {
		return false
	}
	u.owner[c] = id
	return true
}
func (u *plRun) release(c *water.Context) {
	u.Lock()
	delete(u.owner, c)
	u.Unlock()
}

func (g *plLive) see(c *water.Context) {
	g.s = plObs{V: g.v, W: c.Written(), Code: c.Status(), Full: c.FullPath(), Ps: pairs(c.Params), Env: [][]string{}, Pos: g.pos[len(g.pos)-1], Shared: g.s.Shared, Codes: []int{}}
	g.s.R, _ = strconv.Atoi(c.Request.Header.Get("Gate"))
	g.s.Env = envPairs(c.Environ)
	g.any, g.params, g.env = true, c.Params, c.Environ
}

func envPairs(e water.Environ) [][]string {
	m := map[string]string{}
	for k, v := range e {
		m[k] = fmt.Sprint(v)
	}
	return pairs(m)
}

func (u *plRun) handler(pos int) func(*water.Context) {
	return func(c *water.Context) {
		u.Lock()
		g := u.by[goid()]
		u.Unlock()
		g.pos = append(g.pos, pos)
		if len(g.pos) == 1 && !u.acquire(c, g.id) {
			g.s.Shared = true
		}
		defer func() {
			g.pos = g.pos[:len(g.pos)-1]
			if len(g.pos) == 0 {
				u.release(c)
			}
		}()
		for {
			g.see(c)
			op := g.take()
			g.v = ""
			switch op.A {
			case "ret":
				return
			case "next":
				c.Next()
			case "die":
				panic("die " + itoa(g.id))
			case "set":
				if caught(func() { c.Set(op.Name, op.V) }) != "" {
					g.v = "panic"
				}
			case "has":
				g.v = "no"
				if _, ok := c.GetMaybe(op.Name); ok {
					g.v = "yes"
				}
			case "head":
				c.WriteHeader(op.N)
			case "write":
				c.Write([]byte(op.V))
			case "form":
				g.v = c.Query("q")
			case "bind":
				var o struct {
					Q []string `form:"q"`
				}
				if err := c.BindWith(&o, binding.Form); err != nil {
					g.v = "error"
				} else {
					g.v = strings.Join(o.Q, "|")
				}
			case "forms":
				g.v = strings.Join(c.QueryArray("q"), "|")
			}
		}
	}
}

// take waits for (or, running freely, picks) the next operation.
func (g *plLive) take() plOp {
	if !g.free {
		g.ready <- struct{}{}
		return <-g.cmd
	}
	g.obs = append(g.obs, g.s)
	op := plOp{A: "ret"}
	if g.k < len(g.script) {
		op = g.script[g.k]
	}
	g.k++
	op.R = g.id
	g.ops = append(g.ops, op)
	for i := (g.id*7 + g.k*3) % 4; i > 0; i-- {
		runtime.Gosched()
	}
	return op
}

func (g *plLive) serve(eng http.Handler) {
	id := goid()
	g.run.Lock()
	g.run.by[id] = g
	g.run.Unlock()
	p := caught(func() { eng.ServeHTTP(g.w, g.q) })
	g.run.Lock()
	delete(g.run.by, id)
	g.run.Unlock()
	codes := append([]int{}, g.w.codes...)
	g.s = plObs{V: g.v, Done: true, Esc: p != "", Codes: codes, Body: g.w.body.String(), Ps: [][]string{}, Env: [][]string{}, Shared: g.s.Shared}
	g.v = ""
	g.done = true
	if g.free {
		g.obs = append(g.obs, g.s)
	} else {
		g.ready <- struct{}{}
	}
}

var plPaths = map[string]string{"s": "/s", "t": "/u/me", "u": "/u/%s", "ux": "/u/%s/x/%s", "f": "/f/%s", "y": "/y/%s/%s", "z": "/z/%s-%s",
	"oa": "/o/%s", "ob": "/o/%s", "pa": "/p/%s/one", "pb": "/p/%s/%s", "w": "/w/%s", "s2": "/s/", "t2": "/u/me/",
	"none": "/nope/%s", "part": "/u/%s/x/%s/z", "old": "/s", "meth": "/u/%s"}

func (u *plRun) request(id int, q plReq) *plLive {
	path := plPaths[q.Kind]
	for _, v := range q.Vals {
		path = strings.Replace(path, "%s", v, 1)
	}
	path = strings.ReplaceAll(path, "%s", "0")
	m, proto := "GET", "1.1"
	if q.Post > 0 {
		m = "POST"
	}
	switch q.Kind {
	case "old":
		proto = "1.0"
	case "meth":
		m = "PURGE"
	}
	enc := func(vs []string) string {
		l := []string{}
		for _, v := range vs {
			l = append(l, "q="+v)
		}
		return strings.Join(l, "&")
	}
	h := newReq(m, path, proto, strings.NewReader(enc(q.Form[:q.Post])))
	h.URL.RawQuery = enc(q.Form[q.Post:])
	if q.Bad {
		h.URL.RawQuery += "&bad=%zz"
	}
	if q.Post > 0 {
		h.Header.Set("Content-Type", "application/x-www-form-urlencoded")
	}
	h.Header.Set("Gate", itoa(id))
	return &plLive{run: u, id: id, q: h, w: newRec(), cmd: make(chan plOp), ready: make(chan struct{}), script: q.Script}
}

func (u *plRun) engine(c plCfg) http.Handler {
	r := water.NewRouter()
	b := []interface{}{}
	if c.Rec {
		b = append(b, water.Recovery())
	}
	for i := 1; i <= c.Nb; i++ {
		b = append(b, asForm(handlerForms[i%2], u.handler(i)))
	}
	if len(b) > 0 {
		r.Before(b...)
	}
	l := func(n int) (hs []interface{}) {
		for i := 1; i <= n; i++ {
			hs = append(hs, asForm(handlerForms[(i+n)%len(handlerForms)], u.handler(c.Nb+i)))
		}
		return hs
	}
	for _, m := range []string{"GET", "POST"} {
		for _, p := range []string{"/s", "/u/me", "/u/<id>", "/u/<id>/x/<name>", "/f/*", `/y/<n ~ (\d+)>/<_>`, `/z/<n,name ~ (\w+)-(\w+)>`,
			`/o/<a ~ ^(\d+)$>`, `/o/<b ~ (\w+)>`, "/p/<x>/one", "/p/<y>/*", "/w/<_>"} {
			map[string]func(string, ...interface{}){"GET": r.GET, "POST": r.POST}[m](p, l(c.Nh)...)
		}
	}
	opts := []water.Option{water.WithStaticRouter(c.Stat)}
	if c.Nf > 0 {
		opts = append(opts, water.WithNoFoundHandlers(l(c.Nf)...))
	}
	return r.Handler(opts...)
}

// races counts the reports of the race detector so far.
func races(e *Env) int {
	n := 0
	l, _ := filepath.Glob(filepath.Join(e.Scratch, "race*"))
	for _, f := range l {
		b, _ := os.ReadFile(f)
		n += bytes.Count(b, []byte("WARNING: DATA RACE"))
	}
	return n
}

func poolExec(e *Env, raw json.RawMessage) (interface{}, error) {
	var s plScen
	if err := dec(raw, &s); err != nil {
		return nil, err
	}
	s.Obs, s.Alone, s.Conc, s.Kept = []plObs{}, []string{}, [][]string{}, []plKept{}
	if s.Calls == nil {
		s.Calls = []string{}
	}
	before := races(e)
	quietLog()
	if s.Mode == "app" {
		appExec(e, &s)
		s.Races = races(e) - before
		return s, nil
	}
	u := &plRun{by: map[int64]*plLive{}, owner: map[*water.Context]int{}}
	eng := u.engine(s.Cfg)
	live := []*plLive{}
	if s.Mode == "gate" {
		runtime.GOMAXPROCS(1)
		for _, op := range s.Ops {
			if op.A == "start" {
				g := u.request(op.R, s.Reqs[op.R-1])
				live = append(live, g)
				go g.serve(eng)
				<-g.ready
				s.Obs = append(s.Obs, g.s)
				continue
			}
			g := live[op.R-1]
			if g.done {
				s.Obs = append(s.Obs, plObs{V: "the request is over", Done: true, Ps: [][]string{}, Env: [][]string{}, Codes: []int{}})
				continue
			}
			g.cmd <- op
			<-g.ready
			s.Obs = append(s.Obs, g.s)
		}
		for _, g := range live {
			for !g.done {
				g.cmd <- plOp{A: "ret"}
				<-g.ready
			}
		}
	} else {
		runtime.GOMAXPROCS(8)
		for i := range s.Reqs {
			g := u.request(i+1, s.Reqs[i])
			g.free = true
			live = append(live, g)
		}
		var wg sync.WaitGroup
		for l := 0; l < s.Lanes; l++ {
			wg.Add(1)
			go func(l int) {
				defer wg.Done()
				for i := l; i < len(live); i += s.Lanes {
					live[i].serve(eng)
				}
			}(l)
		}
		wg.Wait()
		s.Ops = []plOp{}
		for _, g := range live {
			s.Ops = append(append(s.Ops, plOp{A: "start", R: g.id}), g.ops...)
			s.Obs = append(s.Obs, g.obs...)
		}
	}
	for _, g := range live {
		s.Kept = append(s.Kept, plKept{g.any, pairs(g.params), envPairs(g.env)})
	}
	s.Races = races(e) - before
	return s, nil
}

// ---------------------------------------------------------------- generation

func poolGen(e *Env) []interface{} {
	r := e.R
	out := []interface{}{}
	nr := 0
	bad := map[int]bool{}
	mkReq := func() plReq {
		nr++
		q := plReq{Kind: pick(r, "s", "t", "u", "ux", "f", "y", "z", "oa", "ob", "oa", "pa", "pb", "pa", "w", "s2", "t2", "none", "part", "u", "ux"), Vals: []string{}, Form: []string{}, Script: []plOp{}}
		if r.Intn(10) == 0 {
			q.Kind = pick(r, "old", "meth")
		}
		for i := 0; i < 3; i++ {
			v := "v" + itoa(nr) + "x" + itoa(i)
			if q.Kind == "y" || q.Kind == "oa" {
				v = itoa(nr*10 + i)
			}
			q.Vals = append(q.Vals, v)
		}
		for i := r.Intn(3); i > 0; i-- {
			q.Form = append(q.Form, "f"+itoa(nr)+"y"+itoa(i))
		}
		if len(q.Form) > 0 {
			q.Post = r.Intn(len(q.Form) + 1)
		}
		if q.Kind == "meth" {
			q.Post = 0
		}
		bad[nr] = r.Intn(5) == 0
		q.Bad = bad[nr]
		return q
	}
	names := []string{"a", "b", "c"}
	mkOp := func(id int) plOp {
		o := plOp{R: id}
		switch d := r.Intn(20); {
		case d < 4:
			o.A, o.Name, o.V = "set", pick(r, names...), "e"+itoa(id)+"z"+itoa(r.Intn(100))
		case d < 6:
			o.A, o.Name = "has", pick(r, names...)
		case d < 9:
			o.A = pick(r, "form", "forms", "bind")
			if bad[id] {
				o.A = "bind"
			}
		case d < 13:
			o.A = "next"
		case d < 14:
			o.A, o.N = "head", []int{200, 201, 204, 302, 404, 500}[r.Intn(6)]
		case d < 15:
			o.A, o.V = "write", "w"+itoa(id)+";"
		case d < 16:
			o.A = pick(r, "die", "ret", "ret")
		default:
			o.A = "ret"
		}
		return o
	}
	for i := 0; i < e.N; i++ {
		nr = 0
		s := plScen{Id: "p" + itoa(i), Mode: "gate", Reqs: []plReq{}, Ops: []plOp{}}
		s.Cfg = plCfg{Nb: r.Intn(3), Nh: 1 + r.Intn(3), Nf: r.Intn(3), Rec: r.Intn(2) == 0, Stat: r.Intn(2) == 0}
		if e.Profile == "I02" && i%40 == 7 {
			s.Mode = "app"
			appGen(e, &s)
			out = append(out, s)
			continue
		}
		if e.Profile == "I02" && i%3 == 0 {
			s.Mode = "free"
			s.Lanes = 2 + r.Intn(8)
			n := s.Lanes * (1 + r.Intn(4))
			for j := 1; j <= n; j++ {
				q := mkReq()
				for x := r.Intn(8); x > 0; x-- {
					q.Script = append(q.Script, mkOp(j))
				}
				s.Reqs = append(s.Reqs, q)
			}
			out = append(out, s)
			continue
		}
		width := 1 + r.Intn(4)
		if e.Profile == "I01" && r.Intn(3) > 0 {
			width = 1
		}
		total := width + 2 + r.Intn(4)
		// shadow of which requests are still running: the chain length says how many handlers
		type sh struct {
			stack, nxt, n int
			w             bool
		}
		livs := map[int]*sh{}
		order := []int{}
		for steps := 0; steps < 60; steps++ {
			if len(order) == 0 && len(s.Reqs) >= total {
				break
			}
			if len(order) < width && len(s.Reqs) < total && (len(order) == 0 || r.Intn(3) == 0) {
				q := mkReq()
				s.Reqs = append(s.Reqs, q)
				id := len(s.Reqs)
				s.Ops = append(s.Ops, plOp{A: "start", R: id})
				n := s.Cfg.Nb + s.Cfg.Nh
				switch q.Kind {
				case "old", "meth":
					n = 0
				case "none", "part":
					n = s.Cfg.Nf
					if n > 0 {
						n += s.Cfg.Nb
					}
				}
				if n > 0 {
					livs[id] = &sh{1, 2, n, false}
					order = append(order, id)
				}
				continue
			}
			x := r.Intn(len(order))
			id := order[x]
			l := livs[id]
			op := mkOp(id)
			s.Ops = append(s.Ops, op)
			switch op.A {
			case "next":
				if l.nxt <= l.n {
					l.nxt++
					l.stack++
				}
			case "head", "write":
				l.w = true
			case "die":
				l.stack = 0
			case "ret":
				l.stack--
				if !l.w && l.nxt <= l.n {
					l.nxt++
					l.stack++
				}
			}
			if l.stack == 0 {
				order = append(order[:x], order[x+1:]...)
			}
		}
		out = append(out, s)
	}
	return out
}
