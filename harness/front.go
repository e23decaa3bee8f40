package main

import (
	"encoding/json"
	"fmt"
	"io"
	"math/rand"
	"net/http"
	"strings"

	"github.com/meilihao/water"
)

// Family "front": route tables, requests, and who answered (R01..R05).

type fRoute struct {
	M     string   `json:"m"`     // method or "ANY"
	Parts []string `json:"parts"` // patterns of the enclosing groups, own pattern last
	Uri   string   `json:"uri"`   // concatenation
}
type fReq struct {
	M     string `json:"m"`
	Path  string `json:"path"`
	Proto string `json:"proto"`
	Uri   string `json:"uri"` // request target when not the path
	X     int    `json:"x"`   // not 0: dressed up with things that must not matter
}
type fObs struct {
	Code  int        `json:"code"`
	Sent  int        `json:"sent"` // status lines sent
	Ran   []string   `json:"ran"`
	Full  string     `json:"full"`
	Ps    [][]string `json:"ps"`
	Drift bool       `json:"drift"` // a later handler saw another full path or parameters
	Panic string     `json:"panic"`
}
type rxTab map[string]*RXE

// UnmarshalJSON: TLC writes the empty function as [].
func (t *rxTab) UnmarshalJSON(b []byte) error {
	*t = rxTab{}
	if string(b) == "[]" {
		return nil
	}
	return json.Unmarshal(b, (*map[string]*RXE)(t))
}

type fScen struct {
	Id     string   `json:"id"`
	Routes []fRoute `json:"routes"`
	Before int      `json:"before"`
	Use    int      `json:"use"`
	Nf     int      `json:"nf"`
	St     bool     `json:"st"` // static router option of the engine
	Excl   []string `json:"excl"`
	Two    string   `json:"two"` // second engine: "" none, "static" other static option, "method" one per method
	Res    rxTab    `json:"res"`
	Reqs   []fReq   `json:"reqs"`
	Built  string   `json:"built"`
	Obs    []fObs   `json:"obs"`
	Obs2   []fObs   `json:"obs2"`
}

var allMethods = []string{"GET", "POST", "DELETE", "PUT", "PATCH", "HEAD", "OPTIONS"}

func init() {
	families["front"] = Family{Gen: frontGen, Exec: frontExec}
}

// fCur is the observation being filled in; front scenarios are sequential.
var fCur *fObs

func fMark(id string) func(*water.Context) {
	return func(ctx *water.Context) {
		full, ps := ctx.FullPath(), pairs(ctx.Params)
		if len(fCur.Ran) == 0 {
			fCur.Full, fCur.Ps = full, ps
		} else if full != fCur.Full || fmt.Sprint(ps) != fmt.Sprint(fCur.Ps) {
			fCur.Drift = true
		}
		fCur.Ran = append(fCur.Ran, id)
		switch id[0] {
		case 'R':
			ctx.WriteHeader(220)
		case 'E': // end of the not-found handlers
			ctx.WriteHeader(404)
		}
	}
}

func fAdd(r *water.Router, rt fRoute, id string) {
	for _, p := range rt.Parts[:len(rt.Parts)-1] {
		r = r.Group(p)
	}
	p, h := rt.Parts[len(rt.Parts)-1], fMark(id)
	regAs(r, rt.M, p, h)
}

func regAs(r *water.Router, m, p string, hs ...interface{}) {
	switch m {
	case "GET":
		r.GET(p, hs...)
	case "POST":
		r.POST(p, hs...)
	case "DELETE":
		r.DELETE(p, hs...)
	case "PUT":
		r.PUT(p, hs...)
	case "PATCH":
		r.PATCH(p, hs...)
	case "HEAD":
		r.HEAD(p, hs...)
	case "OPTIONS":
		r.OPTIONS(p, hs...)
	case "ANY":
		r.ANY(p, hs...)
	default:
		panic("method " + m)
	}
}

// fBuild builds the engine of s; only routes of method only (if not "").
func fBuild(s *fScen, st bool, only string) (*water.Engine, string) {
	var e *water.Engine
	old := water.MethodAnyExclude
	water.MethodAnyExclude = s.Excl
	defer func() { water.MethodAnyExclude = old }()
	p := caught(func() {
		r := water.NewRouter()
		for i := 1; i <= s.Before; i++ {
			r.Before(fMark("B" + itoa(i)))
		}
		for i := 1; i <= s.Use; i++ {
			r.Use(fMark("U" + itoa(i)))
		}
		n := 0
		for i, rt := range s.Routes {
			if only != "" {
				if rt.M == "ANY" && !has(s.Excl, only) {
					rt.M = only
				}
				if rt.M != only {
					continue
				}
			}
			fAdd(r, rt, "R"+itoa(i+1))
			n++
		}
		if n == 0 { // an engine needs a route
			m := "GET"
			if only == m {
				m = "PUT"
			}
			regAs(r, m, "/unused", fMark("X"))
		}
		opts := []water.Option{}
		if st {
			opts = append(opts, water.WithStaticRouter(true))
		}
		if s.Nf > 0 {
			hs := []interface{}{}
			for i := 1; i < s.Nf; i++ {
				hs = append(hs, fMark("N"+itoa(i)))
			}
			hs = append(hs, fMark("E"+itoa(s.Nf)))
			opts = append(opts, water.WithNoFoundHandlers(hs...))
		}
		e = r.Handler(opts...)
	})
	return e, p
}

func has(l []string, s string) bool {
	for _, x := range l {
		if x == s {
			return true
		}
	}
	return false
}

func fServe(e *water.Engine, q fReq) fObs {
	o := fObs{Ran: []string{}, Ps: [][]string{}}
	fCur = &o
	rq := newReq(q.M, q.Path, q.Proto, nil)
	if q.Uri != "" {
		rq.RequestURI = q.Uri
	}
	if q.X != 0 {
		dress(rq, rand.New(rand.NewSource(int64(q.X))))
	}
	w := newRec()
	o.Panic = caught(func() { e.ServeHTTP(w, rq) })
	o.Code, o.Sent = w.code(), len(w.codes)
	return o
}

// dress adds to a request what routing must not look at: headers, a query, another spelling of the path, a body.
func dress(q *http.Request, r *rand.Rand) {
	m := pick(r, append([]string{"get", "TRACE", "x"}, allMethods...)...)
	for i := r.Intn(4); i > 0; i-- {
		switch r.Intn(6) {
		case 0:
			q.Header.Set(pick(r, "X-Http-Method-Override", "X-Http-Method", "X-Method-Override", "X-Method"), m)
		case 1:
			q.Header.Set(pick(r, "X-Original-Url", "X-Rewrite-Url", "X-Forwarded-Uri", "X-Forwarded-Prefix", "X-Forwarded-Path"), pick(r, "/", "/a", "/users/1"))
		case 2:
			q.Header.Set(pick(r, "Accept", "Accept-Version", "X-Version", "X-Requested-With", "Upgrade", "Expect", "X-Forwarded-Proto", "X-Forwarded-Host", "Origin", "Access-Control-Request-Method"),
				pick(r, "1", "text/html", "v2", "websocket", "100-continue", "https", "example.org", m))
		case 3:
			q.URL.RawQuery = pick(r, "_method="+m, "method="+m, "a=/b/c", "%zz", "x=1&y=2;z", "_method="+m)
		case 4:
			q.Host = pick(r, "", "a.example", "example.com:81", "[::1]")
			q.RemoteAddr = pick(r, "", "@", "10.0.0.1:1")
		case 5:
			q.Body = io.NopCloser(strings.NewReader("_method=" + m))
			q.Header.Set("Content-Type", "application/x-www-form-urlencoded")
			q.ContentLength = int64(8 + len(m))
		}
	}
	if r.Intn(2) == 0 { // the path with needless escapes
		raw := ""
		for i := 0; i < len(q.URL.Path); i++ {
			c := q.URL.Path[i]
			if r.Intn(3) == 0 && (c != '/' || r.Intn(6) == 0) || c <= ' ' || c > 126 || strings.IndexByte("%?#\"<>\\^`{|}[]", c) >= 0 {
				raw += fmt.Sprintf(pick(r, "%%%02X", "%%%02x"), c)
			} else {
				raw += string(rune(c))
			}
		}
		q.URL.RawPath = raw
	}
	if q.RequestURI != "*" {
		q.RequestURI = q.URL.RequestURI()
	}
}

func frontExec(e *Env, raw json.RawMessage) (interface{}, error) {
	var s fScen
	if err := dec(raw, &s); err != nil {
		return nil, err
	}
	s.Obs, s.Obs2, s.Built = []fObs{}, []fObs{}, ""
	e1, p := fBuild(&s, s.St, "")
	s.Built = p
	twin := map[string]*water.Engine{}
	if p == "" && s.Two == "static" {
		twin[""], s.Built = fBuild(&s, !s.St, "")
	}
	if p == "" && s.Two == "method" {
		for _, m := range allMethods {
			t, p2 := fBuild(&s, s.St, m)
			twin[m] = t
			if p2 != "" {
				s.Built = p2
			}
		}
	}
	if s.Built != "" {
		return s, nil
	}
	for _, q := range s.Reqs {
		s.Obs = append(s.Obs, fServe(e1, q))
		switch s.Two {
		case "static":
			s.Obs2 = append(s.Obs2, fServe(twin[""], q))
		case "method":
			t := twin[q.M]
			if t == nil {
				t = twin["GET"]
			}
			s.Obs2 = append(s.Obs2, fServe(t, q))
		}
	}
	return s, nil
}

// ---------------------------------------------------------------- generation

type fgen struct {
	*rand.Rand
	res   map[string]*RXE
	words []string
	rxOK  bool
	litP  int // weight of literals, percent

	rivals bool     // many different segments for one place, all of which often match
	stem   []string // what comes before that place
	tails  []string // and after it
	long   bool     // long routes, many names
	flat   bool     // routes without a common prefix
}

// rival makes a route whose interesting segment stands where those of others do.
func (g *fgen) rival() fPat {
	p := fPat{}
	used := map[string]bool{}
	for _, s := range g.stem {
		p.segs, p.rx = append(p.segs, s), append(p.rx, nil)
	}
	name := func() string {
		for {
			n := pick(g.Rand, "id", "name", "x", "y", "z", "key", "p1", "p2", "slug", "n")
			if !used[n] {
				used[n] = true
				return n
			}
		}
	}
	var s string
	var x *RX
	switch d := g.Intn(10); {
	case d < 7:
		s, x = g.reSeg(name)
	case d < 9:
		s = pick(g.Rand, ":", "<") + name()
		if s[0] == '<' {
			s += ">"
		}
	default:
		s = pick(g.Rand, "a1", "70", "b")
	}
	p.segs, p.rx = append(p.segs, s), append(p.rx, x)
	if t := g.tails[g.Intn(len(g.tails))]; t != "" {
		p.segs, p.rx = append(p.segs, t), append(p.rx, nil)
	}
	return p
}

// broad is an expression with n groups that matches nearly everything.
func broad(r *rand.Rand, n int) *RX {
	x := cat()
	if r.Intn(2) == 0 {
		x.Xs = append(x.Xs, &RX{K: "bol"})
	}
	any := func() *RX {
		y := &RX{K: "any"}
		switch r.Intn(4) {
		case 0:
			y = &RX{K: "ncls", Cs: []string{pick(r, "z", "0", "-")}}
		case 1:
			y = &RX{K: "cls", Cs: []string{"a", "b", "7", "1", "0", "x"}}
		}
		if r.Intn(2) == 0 {
			return &RX{K: "plus", X: y}
		}
		return &RX{K: "star", X: y}
	}
	for i := 1; i <= n; i++ {
		x.Xs = append(x.Xs, &RX{K: "grp", N: i, X: any()})
	}
	if n == 0 {
		x.Xs = append(x.Xs, any())
	}
	return x
}

// listed is an expression with n groups, one after the other.
func listed(r *rand.Rand, n int) *RX {
	x := cat()
	sep := pick(r, "-", ".", "")
	for i := 1; i <= n; i++ {
		y := digits()
		if r.Intn(3) == 0 {
			y = &RX{K: "cls", Cs: []string{"a", "b"}}
		}
		if sep != "" && r.Intn(3) == 0 {
			y = &RX{K: "plus", X: y}
		}
		if i > 1 && sep != "" {
			x.Xs = append(x.Xs, lit(sep))
		}
		x.Xs = append(x.Xs, &RX{K: "grp", N: i, X: y})
	}
	return x
}

var vocab = []string{"a", "b", "c", "ab", "abc", "A", "users", "user", "u", "v1", "v2", "1", "42", "70", "80",
	"a.b", "a-b", "_", "x y", "é", "日本", "new", "index.html", "p7", "b80", "a:b", "~", "..", ".", "%2f", "a*", "-", "+"}

func (g *fgen) word() string { return g.words[g.Intn(len(g.words))] }

// seg makes a segment for position pos of a route; used holds the names taken.
func (g *fgen) seg(last bool, used map[string]bool) (string, *RX) {
	name := func() string {
		for i := 0; i < 8; i++ {
			n := pick(g.Rand, "id", "name", "x", "y", "z", "key", "p1", "p2", "slug", "n")
			if !used[n] {
				used[n] = true
				return n
			}
		}
		if !g.long {
			return "_"
		}
		n := "q" + itoa(len(used))
		used[n] = true
		return n
	}
	d := g.Intn(100)
	switch {
	case d < g.litP:
		return g.word(), nil
	case d < g.litP+(100-g.litP)*22/100 && g.rxOK:
		return g.reSeg(name)
	case d < g.litP+(100-g.litP)*60/100:
		n := name()
		if g.Intn(10) == 0 {
			n = "_"
		}
		switch g.Intn(6) {
		case 0, 1:
			return ":" + n, nil
		case 2:
			return "<" + n + ":int>", nil
		case 3:
			return "< " + n + " >", nil
		default:
			return "<" + n + ">", nil
		}
	default:
		if !last && g.Intn(3) != 0 && !g.long {
			return g.word(), nil
		}
		switch g.Intn(6) {
		case 0, 1, 2:
			return "*", nil
		case 3:
			return "<*" + name() + ">", nil
		case 4:
			return "*_", nil
		default:
			return "*" + name(), nil
		}
	}
}

func (g *fgen) reSeg(name func() string) (string, *RX) {
	names := []string{name()}
	n := 1
	if g.Intn(4) == 0 {
		names = append(names, name())
		n = 2
		if g.Intn(3) == 0 {
			names = append(names, "_")
			n = 3
		}
	}
	if g.Intn(8) == 0 {
		names[g.Intn(len(names))] = "_"
	}
	many := g.Intn(12) == 0
	if many { // many groups
		for n = 4 + g.Intn(5); len(names) < n; {
			names = append(names, "g"+itoa(len(names))+names[0])
		}
		names = names[:n]
	}
	groups := n
	if n == 1 && g.Intn(3) == 0 {
		groups = 0
	}
	x := rxGen(g.Rand, groups)
	if g.rivals && g.Intn(5) > 0 {
		x = broad(g.Rand, groups)
	}
	if many {
		x = listed(g.Rand, groups)
	}
	t := x.text()
	if strings.ContainsAny(t, "/<>~") {
		return "<" + names[0] + ">", nil
	}
	g.res[t] = &RXE{A: x, N: groups, Ok: true}
	typ := ""
	if g.Intn(5) == 0 {
		typ = ":int"
	}
	sep := pick(g.Rand, " ~ ", "~", " ~")
	return "<" + pick(g.Rand, "", "", "", " ") + strings.Join(names, pick(g.Rand, ",", ", ", ",", ", ", ",  ", " , ", "\t,   ")) + typ + sep + t + ">", x
}

type fPat struct {
	segs []string
	rx   []*RX
}

func (g *fgen) pattern(prev []fPat, maxDepth int) fPat {
	for {
		if g.rivals && g.Intn(10) > 0 {
			return g.rival()
		}
		p := fPat{}
		used := map[string]bool{}
		depth := 1 + g.Intn(maxDepth)
		if len(prev) > 0 && g.Intn(100) < 65 && !g.flat { // share a prefix
			q := prev[g.Intn(len(prev))]
			k := g.Intn(len(q.segs) + 1)
			p.segs = append(p.segs, q.segs[:k]...)
			p.rx = append(p.rx, q.rx[:k]...)
			for _, s := range p.segs {
				for _, n := range namesOf(s) {
					used[n] = true
				}
			}
			if depth <= k {
				depth = k + g.Intn(3)
			}
			if depth == 0 {
				depth = 1
			}
		}
		for len(p.segs) < depth {
			s, x := g.seg(len(p.segs) == depth-1, used)
			p.segs, p.rx = append(p.segs, s), append(p.rx, x)
		}
		if g.Intn(40) == 0 { // "a//b": an empty segment, dropped
			p.segs = append(p.segs, "", g.word())
			p.rx = append(p.rx, nil, nil)
		}
		uri := "/" + strings.Join(p.segs, "/")
		if !dupNames(p.segs) && !strings.HasSuffix(uri, "/") {
			return p
		}
	}
}

func namesOf(seg string) []string {
	s := strings.Trim(seg, "<>")
	switch {
	case strings.HasPrefix(seg, "<"):
		if i := strings.Index(s, "~"); i >= 0 {
			s = s[:i]
		}
		if i := strings.Index(s, ":"); i >= 0 {
			s = s[:i]
		}
		l := strings.Split(strings.TrimPrefix(strings.TrimSpace(s), "*"), ",")
		for i := range l {
			l[i] = strings.TrimSpace(l[i])
		}
		return l
	case strings.HasPrefix(seg, ":"), strings.HasPrefix(seg, "*"):
		return []string{seg[1:]}
	}
	return nil
}

func dupNames(segs []string) bool {
	seen := map[string]bool{}
	for _, s := range segs {
		for _, n := range namesOf(s) {
			if n != "" && n != "_" {
				if seen[n] {
					return true
				}
				seen[n] = true
			}
		}
	}
	return false
}

// path makes a request path for p: mostly one it matches.
func (g *fgen) path(p fPat) string {
	out := []string{}
	verbatim := g.Intn(12) == 0 // the pattern spelled out, as registered or as translated
	for i, s := range p.segs {
		verbatim = verbatim && p.rx[i] == nil && len(s) < 12 // the specification matches regular expressions slowly
	}
	for i, s := range p.segs {
		var t string
		switch {
		case verbatim:
			t = s
			if strings.HasPrefix(s, ":") && g.Intn(2) == 0 {
				t = "<" + s[1:] + ">"
			}
		case strings.HasPrefix(s, "*"), strings.HasPrefix(s, "<*"):
			t = g.word()
			if i == len(p.segs)-1 {
				for j := g.Intn(4); j > 0; j-- {
					t += "/" + g.word()
				}
			}
		case p.rx[i] != nil:
			t = p.rx[i].sample(g.Rand)
			if g.rivals && g.Intn(2) == 0 {
				t = pick(g.Rand, "a1", "70", "b", "ab", "7")
			}
			if g.Intn(5) == 0 {
				t = pick(g.Rand, "x", "0", "a") + t
			}
			if g.Intn(5) == 0 {
				t += pick(g.Rand, "x", "0", "b")
			}
		case strings.HasPrefix(s, "<"), strings.HasPrefix(s, ":"):
			t = g.word()
		default:
			t = s
		}
		out = append(out, t)
	}
	switch g.Intn(14) {
	case 0:
		out[g.Intn(len(out))] = g.word()
	case 1:
		out = append(out, g.word())
	case 2:
		out = out[:len(out)-1]
	case 3:
		out[g.Intn(len(out))] = ""
	case 4:
		i := g.Intn(len(out))
		out[i] += pick(g.Rand, "a", "/", " ", "0")
	case 5:
		i := g.Intn(len(out))
		out[i] = strings.ToUpper(out[i])
	}
	s := "/" + strings.Join(out, "/")
	switch g.Intn(16) {
	case 0, 1:
		s += "/"
	case 2:
		s += "//"
	case 3:
		s = "/" + s
	case 4:
		s = s[1:]
	}
	if s == "*" { // that target is another matter
		s = "/*"
	}
	return s
}

func (g *fgen) split(segs []string) []string {
	uri := "/" + strings.Join(segs, "/")
	if g.Intn(3) != 0 {
		return []string{uri}
	}
	parts := []string{}
	cur := ""
	for _, s := range segs {
		cur += "/" + s
		if g.Intn(3) == 0 && cur == strings.TrimSpace(cur) {
			parts = append(parts, cur)
			cur = ""
		}
	}
	if g.Intn(4) == 0 {
		parts = append([]string{""}, parts...)
	}
	if cur == "" && len(parts) > 0 && g.Intn(2) == 0 {
		return parts
	}
	return append(parts, cur)
}

func frontGen(e *Env) []interface{} {
	out := []interface{}{}
	for i := 0; i < e.N; i++ {
		out = append(out, frontOne(e, i))
	}
	return out
}

func frontOne(e *Env, idx int) *fScen {
	r := e.R
	g := &fgen{Rand: r, res: map[string]*RXE{}, rxOK: true, litP: 45}
	for i := 3 + r.Intn(5); i > 0; i-- {
		g.words = append(g.words, vocab[r.Intn(len(vocab))])
	}
	nr, depth, nq := 1+r.Intn(10), 4, 14
	switch r.Intn(14) {
	case 0: // many siblings
		nr, g.litP, depth = 40+r.Intn(50), 85, 3
		nw := 60
		if r.Intn(8) == 0 { // very many
			nr, g.litP, depth, nw, nq = 100+r.Intn(20), 95, 1+r.Intn(2), 300, 10
			g.flat = true
		}
		g.words = nil
		for i := 0; i < nw; i++ {
			g.words = append(g.words, "n"+itoa(i))
		}
		g.words = append(g.words, vocab[:6]...)
	case 1: // deep
		depth, nr = 14, 1+r.Intn(6)
		if r.Intn(3) > 0 {
			g.long, g.litP = true, 10
		}
	case 2: // long words
		g.rxOK = false
		g.words = append(g.words, strings.Repeat("long", 30+r.Intn(40)), strings.Repeat("é", 20))
		if r.Intn(3) == 0 {
			g.words, depth = append(g.words[:2], strings.Repeat("Long", 257+r.Intn(40))), 2
		}
	case 3:
		g.litP = 10
	case 4:
		g.litP = 90
	case 5, 6:
		g.rivals = true
		nr = 2 + r.Intn(5)
		for i := r.Intn(3); i > 0; i-- {
			g.stem = append(g.stem, g.word())
		}
		g.tails = []string{"", g.word(), "new"}[:1+r.Intn(3)]
		if r.Intn(2) == 0 {
			g.tails = []string{g.word()}
		}
	}
	s := &fScen{Id: "g" + itoa(idx), Res: g.res, St: r.Intn(2) == 0, Excl: []string{"HEAD", "OPTIONS"}}
	s.Before, s.Use, s.Nf = r.Intn(3), r.Intn(3), r.Intn(4)
	methods := []string{"GET"}
	switch e.Profile {
	case "R03":
		methods = append([]string{"ANY", "ANY"}, allMethods...)
		s.Two = "method"
		switch r.Intn(4) {
		case 0:
			s.Excl = []string{}
		case 1:
			s.Excl = []string{pick(r, allMethods...), pick(r, allMethods...)}
		case 2:
			s.Excl = []string{"HEAD", "OPTIONS", "TRACE"}
		}
	case "R04":
		g.litP = 60 + r.Intn(41)
		if nr > 30 {
			g.litP = 90
		}
		methods = []string{"GET", "GET", "POST", "ANY"}
		s.Two = "static"
	case "R05":
		methods = []string{"GET", "GET", "POST", "HEAD"}
		s.Before, s.Use = r.Intn(5), r.Intn(4)
		if r.Intn(3) > 0 {
			s.Nf = 1 + r.Intn(5)
		}
	default:
		methods = []string{"GET", "GET", "GET", "GET", "ANY", pick(r, allMethods...)}
	}
	seen := map[string]bool{}
	var pats []fPat
	expand := func(m string) []string {
		if m != "ANY" {
			return []string{m}
		}
		l := []string{}
		for _, x := range allMethods {
			if !has(s.Excl, x) {
				l = append(l, x)
			}
		}
		return l
	}
	for tries := 0; len(s.Routes) < nr && tries < 4*nr+10; tries++ {
		var rt fRoute
		var p fPat
		if r.Intn(25) == 0 {
			rt.Parts, rt.Uri = []string{"/"}, "/"
			p = fPat{segs: []string{""}, rx: []*RX{nil}}
		} else {
			p = g.pattern(pats, depth)
			if e.Profile == "R03" && len(pats) > 0 && r.Intn(2) == 0 {
				p = pats[r.Intn(len(pats))]
			}
			rt.Parts = g.split(p.segs)
			for _, q := range rt.Parts {
				rt.Uri += strings.TrimSpace(q)
			}
		}
		rt.M = pick(r, methods...)
		dup := false
		for _, m := range expand(rt.M) {
			dup = dup || seen[m+" "+rt.Uri]
		}
		if dup || !(rt.Uri == "/" || (len(rt.Uri) > 1 && rt.Uri[0] == '/' && rt.Uri[len(rt.Uri)-1] != '/')) {
			continue
		}
		for _, m := range expand(rt.M) {
			seen[m+" "+rt.Uri] = true
		}
		pats = append(pats, p)
		s.Routes = append(s.Routes, rt)
	}
	if r.Intn(20) == 0 { // dense requests against few routes
		nq = 40
	}
	for len(s.Reqs) < nq {
		q := fReq{M: "GET", Proto: "1.1"}
		if len(pats) > 0 && r.Intn(8) != 0 {
			k := r.Intn(len(pats))
			for q.Path = g.path(pats[k]); len(q.Path) > 1900; {
				q.Path = "/" + g.words[0]
			}
			if m := s.Routes[k].M; m != "ANY" && r.Intn(3) > 0 {
				q.M = m
			}
		} else {
			switch r.Intn(4) {
			case 0:
				q.Path = "/"
			case 1:
				q.Path = "/" + g.word() + "/" + g.word()
			case 2:
				q.Path = ""
			default:
				q.Path = "/" + g.word()
			}
		}
		if r.Intn(8) == 0 || e.Profile == "R03" && r.Intn(2) == 0 {
			q.M = pick(r, allMethods...)
		}
		if e.Profile == "R03" {
			switch r.Intn(8) {
			case 0:
				q.Proto = pick(r, "1.0", "0.9", "1.0", "2", "1.2")
			case 1:
				q.Uri = "*"
			case 2:
				q.M = pick(r, "CONNECT", "CONNECT", "TRACE", "get", "PROPFIND", "", "LINK", "GETX", "Post", "head")
			}
		} else if r.Intn(30) == 0 {
			q.Proto = "2"
		}
		if r.Intn(3) == 0 {
			q.X = 1 + r.Intn(1<<30)
		}
		s.Reqs = append(s.Reqs, q)
		if r.Intn(10) == 0 { // and again, another way round
			s.Reqs = append(s.Reqs, s.Reqs[r.Intn(len(s.Reqs))])
		}
	}
	return s
}
