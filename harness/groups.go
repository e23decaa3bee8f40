package main

import (
	"bytes"
	"encoding/json"
	"fmt"
	"math/rand"
	"mime/multipart"
	"net/http"
	"os"
	"regexp"
	"sort"
	"strings"

	"github.com/meilihao/water"
)

// Family "groups": programs that register on routers, build engines, serve
// and list (C01, C03, R06, P01).

type gOp struct {
	Op   string   `json:"op"`
	G    int      `json:"g"`
	P    string   `json:"p"`
	M    string   `json:"m"`
	Hs   []string `json:"hs"`
	Fn   int      `json:"fn"` // group: the next fn operations happen inside its function
	Up   bool     `json:"up"` // route: the last handler reads an upload
	St   bool     `json:"st"`
	Mem  int      `json:"mem"`
	E    int      `json:"e"`
	Q    fReq     `json:"q"`
	Size int      `json:"size"`
	What string   `json:"what"`
}
type gObs struct {
	Panic  string     `json:"panic"`
	Code   int        `json:"code"`
	Ran    []string   `json:"ran"`
	Full   string     `json:"full"`
	Ps     [][]string `json:"ps"`
	Name   string     `json:"name"`
	Disk   bool       `json:"disk"`
	Rows   [][]string `json:"rows"`
	Sorted bool       `json:"sorted"`
	None   bool       `json:"none"`
	Bad    []string   `json:"bad"` // unreadable lines
}
type gScen struct {
	Id   string   `json:"id"`
	Excl []string `json:"excl"`
	Res  rxTab    `json:"res"`
	Ops  []gOp    `json:"ops"`
	Obs  []gObs   `json:"obs"`
}

func init() { families["groups"] = Family{Gen: groupsGen, Exec: groupsExec} }

var gCur *gObs

type objHandler struct{ f func(*water.Context) }

func (o objHandler) ServeHTTP(c *water.Context) { o.f(c) }

type stdHandler struct{ f func(*water.Context) }

func (o stdHandler) ServeHTTP(w http.ResponseWriter, r *http.Request) { o.f(w.(*water.Context)) }

func gHandler(id string, up bool) interface{} {
	f := func(ctx *water.Context) {
		if len(gCur.Ran) == 0 {
			gCur.Full, gCur.Ps = ctx.FullPath(), pairs(ctx.Params)
		}
		name := ""
		if caught(func() { name = ctx.HandlerName() }); len(gCur.Ran) == 0 {
			gCur.Name = name
		}
		if name == "" || name != gCur.Name { // every handler is told the same, that of the last one
			gCur.Name = "?"
		}
		gCur.Ran = append(gCur.Ran, id)
		if up && ctx.Request.Method == "POST" {
			ctx.ParseFormOrMultipartForm()
			if ctx.Request.MultipartForm != nil {
				fh := ctx.Request.MultipartForm.File["f"]
				if len(fh) == 1 {
					t, err := fh[0].Open()
					die(err)
					_, gCur.Disk = t.(*os.File)
					t.Close()
				}
				ctx.Request.MultipartForm.RemoveAll()
			}
		}
	}
	switch id[0] {
	case 'o':
		return objHandler{f}
	case 'f':
		return water.HandlerFunc(f)
	case 's':
		return stdHandler{f}
	case 'w':
		return func(w http.ResponseWriter, r *http.Request) { f(w.(*water.Context)) }
	case 'n': // nil
		return nil
	case 'b': // bad
		switch id[len(id)-1] % 8 {
		case 0:
			return 42
		case 1:
			return "handler"
		case 2:
			return func() {}
		case 3:
			return func(*water.Context) error { return nil }
		case 4: // nil functions
			return (func(*water.Context))(nil)
		case 5:
			return water.HandlerFunc(nil)
		case 6:
			return http.HandlerFunc(nil)
		default:
			return (func(http.ResponseWriter, *http.Request))(nil)
		}
	}
	return func(c *water.Context) { f(c) }
}

type gRun struct {
	e       *Env
	s       *gScen
	routers []*water.Router // by node number - 1; nil for routes
	engines []*water.Engine
	stop    bool
}

// after is the index of the operation that follows operation i and all inside it.
func (g *gRun) after(i int) int {
	if g.s.Ops[i].Op == "group" {
		return i + 1 + g.s.Ops[i].Fn
	}
	return i + 1
}

func (g *gRun) do(i int) int {
	op := g.s.Ops[i]
	if op.Op == "group" {
		g.s.Obs = append(g.s.Obs, gObs{})
		slot, next := len(g.s.Obs)-1, i+1
		p := caught(func() {
			is := []interface{}{}
			for _, h := range op.Hs {
				is = append(is, gHandler(h, false))
			}
			g.routers = append(g.routers, nil)
			me := len(g.routers) - 1
			end := i + 1 + op.Fn
			for from := i + 1; op.Fn > 0; {
				to := from // up to the next "arg" of this group
				for to < end && g.s.Ops[to].Op != "arg" {
					to = g.after(to)
				}
				from0 := from
				is = append(is, func(rr *water.Router) {
					g.routers[me] = rr
					if from0 != next {
						panic("group functions called out of order")
					}
					for next < to && !g.stop {
						next = g.do(next)
					}
					for next == to && next < end && !g.stop { // the arguments after this function
						g.s.Obs = append(g.s.Obs, gObs{})
						next++
					}
				})
				if to == end {
					break
				}
				for _, h := range g.s.Ops[to].Hs {
					is = append(is, gHandler(h, false))
				}
				from = to + 1
			}
			rr := g.routers[op.G-1].Group(op.P, is...)
			if op.Fn > 0 && next != i+1+op.Fn && !g.stop {
				panic("group function not called")
			}
			g.routers[me] = rr
		})
		g.s.Obs[slot].Panic = p
		if p != "" {
			g.stop = true
		}
		return next
	}
	o := gObs{}
	gCur = &o
	o.Panic = caught(func() { g.exec(op, &o) })
	g.s.Obs = append(g.s.Obs, o)
	if o.Panic != "" && op.Op != "serve" && op.Op != "upload" && op.Op != "list" {
		g.stop = true
	}
	return i + 1
}

func (g *gRun) exec(op gOp, o *gObs) {
	var r *water.Router
	if op.G > 0 && op.G <= len(g.routers) {
		r = g.routers[op.G-1]
	}
	hs := []interface{}{}
	for i, h := range op.Hs {
		hs = append(hs, gHandler(h, op.Up && i == len(op.Hs)-1))
	}
	reuse := func() { // the caller's list is used for something else
		for i := range hs {
			hs[i] = gHandler("ghost", false)
		}
	}
	defer reuse()
	switch op.Op {
	case "root":
		g.routers = append(g.routers, water.NewRouter())
	case "default":
		quietLog()
		g.routers = append(g.routers, water.Default())
	case "nofs":
		r.StaticAdvance(&water.StaticOptions{Prefix: op.P, IndexFile: "index.html"})
	case "nonf":
		water.WithNoFoundHandlers()
	case "before":
		r.Before(hs...)
	case "use":
		r.Use(hs...)
	case "classic":
		r.Classic()
	case "route":
		g.routers = append(g.routers, nil)
		regAs(r, op.M, op.P, hs...)
	case "static":
		g.routers = append(g.routers, nil, nil)
		r.Static(op.P, g.e.Scratch)
	case "file":
		g.routers = append(g.routers, nil, nil)
		r.StaticFile(op.P, g.e.Scratch+"/none")
	case "build":
		opts := []water.Option{}
		if op.St {
			opts = append(opts, water.WithStaticRouter(true))
		}
		if op.Mem > 0 {
			opts = append(opts, water.WithMaxMultipartMemory(int64(op.Mem)))
		}
		if len(hs) > 0 {
			opts = append(opts, water.WithNoFoundHandlers(hs...))
			reuse()
		}
		g.engines = append(g.engines, r.Handler(opts...))
	case "serve":
		f := fObs{}
		_ = f
		w := newRec()
		g.engines[op.E-1].ServeHTTP(w, newReq(op.Q.M, op.Q.Path, op.Q.Proto, nil))
		o.Code = w.code()
	case "upload":
		var b bytes.Buffer
		mw := multipart.NewWriter(&b)
		fw, _ := mw.CreateFormFile("f", "f.bin")
		fw.Write(bytes.Repeat([]byte("x"), op.Size))
		mw.Close()
		q := newReq("POST", op.Q.Path, "1.1", &b)
		q.Header.Set("Content-Type", mw.FormDataContentType())
		w := newRec()
		g.engines[op.E-1].ServeHTTP(w, q)
		o.Code = w.code()
	case "list":
		g.list(op, o)
	default:
		die(fmt.Errorf("op %s", op.Op))
	}
}

var (
	rowAll    = regexp.MustCompile(`^\[(\S+)\s*:\s*(\d+)\] (.*)$`)
	rowMethod = regexp.MustCompile(`^\[\s*(\d+)\] (.*)$`)
	rowRoot   = regexp.MustCompile(`^/ \[\s*(\d+)\]$`)
	rowRaw    = regexp.MustCompile(`^ (.*) \[(\S+)\s*:\s*(\d+)\]$`)
	rowLeaf   = regexp.MustCompile(`^(.*) \[\s*(\d+)\]$`)
)

// branchAt is where the branch mark of a listed line starts.
func branchAt(l string) int {
	i := strings.Index(l, "├──")
	if j := strings.Index(l, "└──"); i < 0 || j >= 0 && j < i {
		i = j
	}
	return i
}

func (g *gRun) list(op gOp, o *gObs) {
	e := g.engines[op.E-1]
	m := op.M
	if len(op.P) > 0 { // spelled another way
		m = op.P
	}
	text := captureStdout(g.e, func() {
		switch op.What {
		case "all":
			e.PrintRawAllRoutes()
		case "method":
			e.PrintRawRoutes(m)
		case "tree":
			e.PrintRouterTree(m)
		case "raw":
			e.PrintRawRouter()
		}
	})
	lines := strings.Split(strings.TrimSuffix(text, "\n"), "\n")
	if len(lines) == 1 && lines[0] == "no route" {
		o.None = true
		o.Sorted = true
		return
	}
	stack := []string{}
	if text == "" {
		lines = nil
	}
	for _, l := range lines {
		switch op.What {
		case "raw": // depth, pattern, method, length of the chain
			if i := branchAt(l); i >= 0 {
				d, rest := itoa(len([]rune(l[:i]))/4), l[i+len("├──"):]
				if x := rowRaw.FindStringSubmatch(rest); x != nil {
					o.Rows = append(o.Rows, []string{d, x[1], x[2], x[3]})
				} else {
					o.Rows = append(o.Rows, []string{d, strings.TrimPrefix(rest, " "), "", ""})
				}
				continue
			}
		case "all":
			if x := rowAll.FindStringSubmatch(l); x != nil {
				o.Rows = append(o.Rows, []string{x[1], x[2], x[3]})
				continue
			}
		case "method":
			if x := rowMethod.FindStringSubmatch(l); x != nil {
				o.Rows = append(o.Rows, []string{x[1], x[2]})
				continue
			}
		case "tree":
			if x := rowRoot.FindStringSubmatch(l); x != nil {
				o.Rows = append(o.Rows, []string{x[1], "/"})
				continue
			}
			if i := branchAt(l); i >= 0 {
				d := len([]rune(l[:i])) / 4
				rest := l[i+len("├──"):]
				if d <= len(stack) && strings.HasPrefix(rest, " ") {
					stack = stack[:d]
					if x := rowLeaf.FindStringSubmatch(rest[1:]); x != nil {
						o.Rows = append(o.Rows, []string{x[2], "/" + strings.Join(append(append([]string{}, stack...), x[1]), "/")})
					} else {
						stack = append(stack, rest[1:])
					}
					continue
				}
			}
		}
		o.Bad = append(o.Bad, l)
	}
	uris := []string{}
	for _, r := range o.Rows {
		uris = append(uris, r[len(r)-1])
	}
	o.Sorted = sort.StringsAreSorted(uris)
}

func groupsExec(e *Env, raw json.RawMessage) (interface{}, error) {
	var s gScen
	if err := dec(raw, &s); err != nil {
		return nil, err
	}
	s.Obs = []gObs{}
	old := water.MethodAnyExclude
	water.MethodAnyExclude = s.Excl
	defer func() { water.MethodAnyExclude = old }()
	g := &gRun{e: e, s: &s}
	for i := 0; i < len(s.Ops) && !g.stop; {
		i = g.do(i)
	}
	return s, nil
}

// ---------------------------------------------------------------- generation

type ggen struct {
	*rand.Rand
	fg    *fgen
	s     *gScen
	n     int            // nodes so far
	kind  map[int]string // node -> root, group, route
	root  map[int]int
	uri   map[int]string
	ids   int
	kids  map[int]int
	mids  map[int]int     // middleware given to the node
	paths map[int][]gPath // root -> routes
	eng   []int           // engine -> root
	seen  map[string]bool
	max   int
}
type gPath struct {
	m, uri string
	up     bool
}

func (g *ggen) id(group bool) string {
	g.ids++
	if group {
		return "h" + itoa(g.ids)
	}
	return pick(g.Rand, "h", "h", "o", "f", "s", "w") + itoa(g.ids)
}
func (g *ggen) idsN(n int, group bool) []string {
	l := []string{}
	for i := 0; i < n; i++ {
		l = append(l, g.id(group))
	}
	return l
}
func (g *ggen) op(o gOp) {
	if o.Hs == nil {
		o.Hs = []string{}
	}
	g.s.Ops = append(g.s.Ops, o)
}
func (g *ggen) node(kind string, root int, uri string) int {
	g.n++
	if kind == "root" {
		root = g.n
	}
	g.kind[g.n], g.root[g.n], g.uri[g.n] = kind, root, uri
	return g.n
}
func (g *ggen) groupsOf(root int) []int {
	l := []int{}
	for i := 1; i <= g.n; i++ {
		if g.root[i] == root && g.kind[i] != "route" {
			l = append(l, i)
		}
	}
	return l
}

func newGgen(r *rand.Rand, idx int) *ggen {
	fg := &fgen{Rand: r, res: map[string]*RXE{}, rxOK: true, litP: 70}
	for i := 3 + r.Intn(6); i > 0; i-- {
		fg.words = append(fg.words, vocab[r.Intn(len(vocab))])
	}
	return &ggen{Rand: r, fg: fg, s: &gScen{Id: "g" + itoa(idx), Excl: []string{"HEAD", "OPTIONS"}, Res: fg.res},
		kind: map[int]string{}, root: map[int]int{}, uri: map[int]string{}, kids: map[int]int{}, mids: map[int]int{},
		paths: map[int][]gPath{}, seen: map[string]bool{}, max: 3}
}

func (g *ggen) newRoot() int {
	if g.Intn(10) == 0 {
		g.op(gOp{Op: "default"})
	} else {
		g.op(gOp{Op: "root"})
	}
	return g.node("root", 0, "")
}

// namesIn collects the parameter names already in a uri.
func usedIn(uri string) map[string]bool {
	u := map[string]bool{}
	for _, s := range strings.Split(uri, "/") {
		for _, n := range namesOf(s) {
			u[n] = true
		}
	}
	return u
}

func (g *ggen) pat(prefix string, last bool) string {
	used := usedIn(prefix)
	p := ""
	for i := 1 + g.Intn(2); i > 0; i-- {
		s, _ := g.fg.seg(last && i == 1, used)
		p += "/" + s
	}
	return p
}

func (g *ggen) addRoute(at int) bool {
	root := g.root[at]
	m := pick(g.Rand, "GET", "GET", "GET", "POST", "PUT", "ANY", pick(g.Rand, allMethods...))
	p := g.pat(g.uri[at], true)
	if g.uri[at] == "" && g.Intn(12) == 0 {
		p = "/"
	} else if g.uri[at] != "" && g.Intn(8) == 0 {
		p = ""
	}
	uri := g.uri[at] + p
	if g.Intn(12) == 0 {
		p = pick(g.Rand, " ", "\t", "") + p + pick(g.Rand, " ", "")
	}
	ms := []string{m}
	if m == "ANY" {
		ms = nil
		for _, x := range allMethods {
			if !has(g.s.Excl, x) {
				ms = append(ms, x)
			}
		}
	}
	for _, x := range ms {
		if g.seen[itoa(root)+x+" "+uri] {
			return false
		}
	}
	if uri == "" || uri != "/" && strings.HasSuffix(uri, "/") || dupNames(strings.Split(uri, "/")) {
		return false
	}
	for _, x := range ms {
		g.seen[itoa(root)+x+" "+uri] = true
		g.paths[root] = append(g.paths[root], gPath{m: x, uri: uri})
	}
	g.op(gOp{Op: "route", G: at, M: m, P: p, Hs: g.idsN(1+g.Intn(3), false)})
	g.node("route", root, uri)
	g.kids[at]++
	return true
}

// someGroup opens a group below at; with a function some of the time.
func (g *ggen) addGroup(at int, depth int) {
	p := g.pat(g.uri[at], false)
	if g.Intn(8) == 0 {
		p = ""
	}
	if dupNames(strings.Split(g.uri[at]+p, "/")) {
		p = "/" + g.fg.word()
	}
	uri := g.uri[at] + p
	if p != "" && g.Intn(12) == 0 {
		p = " " + p + " "
	}
	nm := []int{0, 0, 1, 2, 5}[g.Intn(5)]
	i := len(g.s.Ops)
	g.op(gOp{Op: "group", G: at, P: p, Hs: g.idsN(nm, true)})
	me := g.node("group", g.root[at], uri)
	g.kids[at]++
	g.mids[me] += nm
	if g.Intn(2) == 0 { // inside its function
		for j := 1 + g.Intn(4); j > 0; j-- {
			g.grow(me, depth+1)
			if g.Intn(3) == 0 { // more middleware arguments, then another function
				g.op(gOp{Op: "arg", G: me, Hs: g.idsN(g.Intn(3), true)})
			}
		}
		g.s.Ops[i].Fn = len(g.s.Ops) - i - 1
	}
	if g.kids[me] == 0 {
		for !g.addRoute(me) {
		}
		if g.s.Ops[i].Fn > 0 {
			g.s.Ops[i].Fn = len(g.s.Ops) - i - 1
		}
	}
}

func (g *ggen) grow(at, depth int) {
	switch d := g.Intn(10); {
	case d < 2:
		n := 1 + g.Intn(3)
		if g.Intn(12) == 0 {
			n = 9
		}
		g.op(gOp{Op: "use", G: at, Hs: g.idsN(n, false)})
		g.mids[at] += n
	case d < 5 && depth < g.max:
		g.addGroup(at, depth)
	default:
		g.addRoute(at)
	}
}

func (g *ggen) growAny(root int) {
	l := g.groupsOf(root)
	at := l[g.Intn(len(l))]
	depth := strings.Count(g.uri[at], "/")
	if at == root && g.Intn(5) == 0 {
		g.op(gOp{Op: "before", G: at, Hs: g.idsN(1+g.Intn(2), false)})
		return
	}
	g.grow(at, depth)
}

func (g *ggen) build(root int) int {
	o := gOp{Op: "build", G: root, St: g.Intn(2) == 0}
	if g.Intn(2) == 0 {
		o.Hs = g.idsN(1+g.Intn(2), false)
	}
	if g.Intn(3) == 0 {
		o.Mem = []int{100, 1000, 5000, 64 << 20}[g.Intn(4)]
	}
	if len(g.paths[root]) == 0 {
		for !g.addRoute(root) {
		}
	}
	g.op(o)
	g.eng = append(g.eng, root)
	return len(g.eng)
}

// reqFor makes a request likely to be answered by a route with this uri.
func (g *ggen) reqFor(m, uri string) fReq {
	p := fPat{}
	for _, s := range strings.Split(strings.TrimPrefix(uri, "/"), "/") {
		p.segs = append(p.segs, s)
		var x *RX
		if i := strings.Index(s, "~"); i >= 0 && strings.HasPrefix(s, "<") {
			if e := g.s.Res[strings.TrimSpace(s[i+1:len(s)-1])]; e != nil {
				x = e.A
			}
		}
		p.rx = append(p.rx, x)
	}
	return fReq{M: m, Path: g.fg.path(p), Proto: "1.1"}
}

func (g *ggen) serve(e int) {
	root := g.eng[e-1]
	ps := g.paths[root]
	q := fReq{M: pick(g.Rand, allMethods...), Path: "/" + g.fg.word(), Proto: "1.1"}
	if len(ps) > 0 && g.Intn(8) > 0 {
		p := ps[g.Intn(len(ps))]
		q = g.reqFor(p.m, p.uri)
	}
	g.op(gOp{Op: "serve", E: e, Q: q})
}

func groupsGen(e *Env) []interface{} {
	out := []interface{}{}
	for i := 0; i < e.N; i++ {
		g := newGgen(e.R, i)
		switch e.Profile {
		case "C01":
			g.genC01()
		case "C03":
			g.genC03()
		case "R06":
			g.genR06()
		case "P01":
			g.genP01()
		}
		out = append(out, g.s)
	}
	return out
}

func (g *ggen) tree(n int) int {
	root := g.newRoot()
	for i := g.Intn(3); i > 0; i-- {
		g.op(gOp{Op: pick(g.Rand, "before", "use"), G: root, Hs: g.idsN(1+g.Intn(3), false)})
	}
	for i := 0; i < n; i++ {
		g.growAny(root)
	}
	return root
}

func (g *ggen) genC01() {
	n := 3 + g.Intn(14)
	switch g.Intn(10) {
	case 0:
		g.max = 12
		n = 20
		// one deep line of groups
		root := g.newRoot()
		at := root
		for d := 3 + g.Intn(10); d > 0; d-- {
			g.addGroup(at, 0)
			at = g.groupsOf(root)[len(g.groupsOf(root))-1]
			g.op(gOp{Op: "use", G: at, Hs: g.idsN(1, false)})
		}
		for i := 0; i < n; i++ {
			g.growAny(root)
		}
		g.finishC01(root)
		return
	case 1:
		n = 40
	}
	g.finishC01(g.tree(n))
}

func (g *ggen) finishC01(root int) {
	e := g.build(root)
	ps := g.paths[root]
	for i := 0; i < len(ps) && i < 40; i++ {
		g.op(gOp{Op: "serve", E: e, Q: g.reqFor(ps[i].m, ps[i].uri)})
	}
}

func (g *ggen) genC03() {
	nr := 1 + g.Intn(2)
	roots := []int{}
	for i := 0; i < nr; i++ {
		r := g.newRoot()
		roots = append(roots, r)
		if g.Intn(2) == 0 {
			g.op(gOp{Op: "before", G: r, Hs: g.idsN(1, false)})
		}
		// an upload route
		g.op(gOp{Op: "route", G: r, M: "POST", P: "/up~load", Hs: g.idsN(1, false), Up: true})
		g.node("route", r, "/up~load")
		g.kids[r]++
		g.seen[itoa(r)+"POST /up~load"] = true
		for j := 1 + g.Intn(5); j > 0; j-- {
			g.growAny(r)
		}
	}
	g.build(roots[0])
	for i := 4 + g.Intn(16); i > 0; i-- {
		r := roots[g.Intn(nr)]
		switch d := g.Intn(12); {
		case d < 3:
			g.growAny(r)
		case d < 5:
			g.build(r)
		case d < 6:
			g.op(gOp{Op: "upload", E: 1 + g.Intn(len(g.eng)), Q: fReq{M: "POST", Path: "/up~load", Proto: "1.1"},
				Size: []int{10, 700, 3000, 20000}[g.Intn(4)]})
		default:
			g.serve(1 + g.Intn(len(g.eng)))
		}
	}
	for e := range g.eng {
		for i := 0; i < 4; i++ {
			g.serve(e + 1)
		}
		g.op(gOp{Op: "upload", E: e + 1, Q: fReq{M: "POST", Path: "/up~load", Proto: "1.1"}, Size: []int{10, 700, 3000, 20000}[g.Intn(4)]})
	}
}

func (g *ggen) genP01() {
	n := 2 + g.Intn(14)
	if g.Intn(10) == 0 {
		n = 60
	}
	g.fg.litP = 40 + g.Intn(50)
	root := g.tree(n)
	if g.Intn(4) == 0 {
		g.op(gOp{Op: "classic", G: root})
	}
	if g.Intn(4) == 0 {
		g.op(gOp{Op: "static", G: root, P: "/sta" + itoa(g.Intn(3))})
		g.node("route", root, "")
		g.node("route", root, "")
	}
	if g.Intn(4) == 0 {
		g.op(gOp{Op: "file", G: root, P: "/fil" + itoa(g.Intn(3))})
		g.node("route", root, "")
		g.node("route", root, "")
	}
	e := g.build(root)
	if g.Intn(3) == 0 { // later registration is not listed
		for i := 0; i < 3; i++ {
			g.growAny(root)
		}
	}
	g.op(gOp{Op: "list", E: e, What: "all"})
	g.op(gOp{Op: "list", E: e, What: "raw"})
	for _, m := range allMethods {
		sp := ""
		if g.Intn(3) == 0 {
			sp = strings.ToLower(m)
		}
		g.op(gOp{Op: "list", E: e, What: "method", M: m, P: sp})
		g.op(gOp{Op: "list", E: e, What: "tree", M: m, P: sp})
	}
}

// genR06 makes a program that is fine, and most of the time spoils one thing.
func (g *ggen) genR06() {
	bad := g.Intn(100) < 70
	root := g.tree(2 + g.Intn(8))
	l := g.groupsOf(root)
	at := l[g.Intn(len(l))]
	nf := []string(nil)
	route := func(p string, hs ...string) {
		m := pick(g.Rand, "GET", "POST", "ANY", "HEAD", "OPTIONS", "PATCH")
		g.op(gOp{Op: "route", G: at, M: m, P: p, Hs: hs})
		g.node("route", root, "")
		g.kids[at]++
	}
	// a second thing that is harmless
	spoil := func() {
		switch g.Intn(17) {
		case 16:
			g.op(gOp{Op: pick(g.Rand, "nofs", "nonf"), G: root, P: pick(g.Rand, "", "/sx")})
		case 0: // twice
			ps := g.paths[root]
			if len(ps) > 0 {
				p := ps[g.Intn(len(ps))]
				at = root
				m := p.m
				if g.Intn(2) == 0 && !has(g.s.Excl, m) {
					m = "ANY"
				}
				g.op(gOp{Op: "route", G: root, M: m, P: p.uri, Hs: g.idsN(1, false)})
				g.node("route", root, "")
				return
			}
			route("bad", g.id(false))
		case 1:
			hs := g.idsN(1+g.Intn(3), false)
			hs[g.Intn(len(hs))] = "nil"
			route("/zz", hs...)
		case 2:
			hs := g.idsN(1+g.Intn(3), false)
			hs[g.Intn(len(hs))] = "bad" + itoa(g.Intn(8))
			route("/zz", hs...)
		case 3: // no handlers at all
			r2 := g.newRoot()
			g.op(gOp{Op: "route", G: r2, M: "GET", P: "/x", Hs: nil})
			g.node("route", r2, "")
			root = r2
		case 4:
			at = root
			route(pick(g.Rand, "", "x", "a/b", "/a/", "//", "/a//", " ", "/<x>/", "*", "<x>", ":x", "/*/", "x/"), g.id(false))
		case 5:
			route("/"+pick(g.Rand, "<x", "x>", "a<x>", "<x>b", "<x>>b", "a>b", "<", ">", "><", " a/b", "a /b", "a/ b/c", "<x> /c", "a\t/b",
				"<a>b<c", "b<c", "-<x>-"), g.id(false))
		case 6:
			t := pick(g.Rand, "(", "[0-9", "a**", "(a", "a)", "*a", "[z-a]", "(a))", "\\")
			g.s.Res[t] = &RXE{A: lit("x"), N: 1, Ok: false}
			route("/<q ~ "+t+">", g.id(false))
		case 7: // wrong number of groups
			n := 1 + g.Intn(3)
			k := g.Intn(4)
			for k == n || n == 1 && k == 0 {
				k = g.Intn(4)
			}
			var x *RX
			for x == nil || strings.ContainsAny(x.text(), "/<>~") {
				if k == 0 {
					x = rxGen(g.Rand, 0)
				} else {
					x = rxGen(g.Rand, k)
				}
			}
			g.s.Res[x.text()] = &RXE{A: x, N: k, Ok: true}
			names := strings.Split("q1,q2,q3", ",")[:n]
			route("/<"+strings.Join(names, ",")+" ~ "+x.text()+">", g.id(false))
		case 8:
			g.op(gOp{Op: "before", G: g.sub(root), Hs: g.idsN(1, false)})
		case 9:
			g.op(gOp{Op: "static", G: g.sub(root), P: "/sx"})
			g.node("route", root, "")
			g.node("route", root, "")
		case 10:
			g.op(gOp{Op: "file", G: g.sub(root), P: "/sx"})
			g.node("route", root, "")
			g.node("route", root, "")
		case 11:
			g.op(gOp{Op: "classic", G: g.sub(root)})
		case 12:
			root = g.sub(root)
		case 13:
			hs := g.idsN(1+g.Intn(2), false)
			hs[g.Intn(len(hs))] = pick(g.Rand, "nil", "bad1", "bad2", "bad4", "bad5", "bad6", "bad7")
			nf = hs
		case 14:
			hs := g.idsN(1+g.Intn(2), false)
			hs[g.Intn(len(hs))] = pick(g.Rand, "nil", "bad1", "bad3", "bad4", "bad5", "bad6", "bad7")
			op := pick(g.Rand, "use", "before")
			if op == "before" {
				at = root
			}
			g.op(gOp{Op: op, G: at, Hs: hs})
		case 15:
			g.op(gOp{Op: "group", G: at, P: "/gg", Hs: []string{pick(g.Rand, "bad0", "bad1", "bad2", "bad3", "nil")}})
			me := g.node("group", root, "")
			at = me
			route("/x", g.id(false))
		}
	}
	if bad {
		spoil()
	} else if g.Intn(2) == 0 { // odd but accepted
		switch g.Intn(8) {
		case 0:
			route("/zz", g.id(false))
			g.op(gOp{Op: "use", G: at})
		case 1:
			at = root
			g.op(gOp{Op: "use", G: root, Hs: g.idsN(1, false)})
			route("/only-middleware")
		case 2:
			at = root
			route("/zz//yy", g.id(false))
		case 3:
			at = root
			route(" /zz<a>b/*"[0:4], g.id(false))
		case 4:
			at = root
			same := []string{"/:aa", "/<aa>", "/<bb>", "/< aa >", "/<aa:int>", "/:bb"} // different patterns for the same requests
			g.Shuffle(len(same), func(a, b int) { same[a], same[b] = same[b], same[a] })
			pre := pick(g.Rand, "", "/x")
			for _, p := range same[:2+g.Intn(3)] {
				route(pre+p, g.id(false))
				g.s.Ops[len(g.s.Ops)-1].M = "PUT"
			}
		case 5:
			at = root
			route("/*<zz", g.id(false))
		case 6: // a middleware-only group next to others
			g.op(gOp{Op: "use", G: root, Hs: g.idsN(1, false)})
			g.op(gOp{Op: "group", G: root, P: "/empty", Hs: nil})
			g.node("group", root, "/empty")
		case 7:
			at = root
			route("/<zz:int>/<yy : str ~ ([a-z])>", g.id(false))
			g.s.Res["([a-z])"] = &RXE{A: &RX{K: "grp", N: 1, X: &RX{K: "cls", Cs: strings.Split("abcdefghijklmnopqrstuvwxyz", "")}}, N: 1, Ok: true}
		}
	}
	g.op(gOp{Op: "build", G: root, St: g.Intn(2) == 0, Hs: nf})
	g.eng = append(g.eng, root)
	if !bad {
		for i := 0; i < 4; i++ {
			g.serve(1)
		}
	}
}

// sub is a group below root.
func (g *ggen) sub(root int) int {
	for _, x := range g.groupsOf(root) {
		if x != root {
			return x
		}
	}
	g.addGroup(root, 0)
	return g.sub(root)
}
