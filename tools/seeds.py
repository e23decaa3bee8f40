HTTP = '''package water

import (
	"net/http"
	"net/http/httptest"
	"testing"
%s)

var _ = http.StatusOK

func serveDemo(e *Engine, method, url string, hs ...string) *httptest.ResponseRecorder {
	r := httptest.NewRequest(method, url, nil)
	for i := 0; i+1 < len(hs); i += 2 {
		r.Header.Set(hs[i], hs[i+1])
	}
	w := httptest.NewRecorder()
	e.ServeHTTP(w, r)
	return w
}

'''
def T(body, *imports):
    return HTTP % "".join('\t"%s"\n' % i for i in imports) + "func TestZZDemo(t *testing.T) {\n\tLogClose = true\n" + body + "}\n"

SEEDS = [
 dict(id="cors-shared-grant", property="M01",
  needs="a request from an allowed origin, then one from another origin through the same middleware",
  breaks="the grant computed for one request is kept and sent to later requests from origins that are not allowed",
  edits=[("m_cors.go", "	maxAge := strconv.Itoa(config.MaxAge)\n", "	maxAge := strconv.Itoa(config.MaxAge)\n	allowOrigin := \"\"\n"),
         ("m_cors.go", "		allowOrigin := \"\"\n\n", "\n")],
  demo=T('''	r := NewRouter()
	r.Use(CORS(CORSConfig{AllowOrigins: []string{"https://a.example", "https://b.example"}}))
	r.GET("/", func(c *Context) { c.String(200, "x") })
	e := r.Handler()
	if g := serveDemo(e, "GET", "/", "Origin", "https://a.example").Header().Get("Access-Control-Allow-Origin"); g != "https://a.example" {
		t.Fatal(g)
	}
	if g := serveDemo(e, "GET", "/", "Origin", "https://evil.example").Header().Get("Access-Control-Allow-Origin"); g != "" {
		t.Fatal("granted to evil: ", g)
	}
''')),
 dict(id="environ-kept-on-404", property="I01",
  needs="a handler that stores something in the context, then a request no route matches, served by NoFound handlers from the recycled context",
  breaks="a not-found request sees the values an earlier request stored",
  edits=[("engine.go", "	ctx.Environ = make(Environ)\n", "	if ctx.Environ == nil || ctx.endNode != nil {\n		ctx.Environ = make(Environ)\n	}\n")],
  demo=T('''	r := NewRouter()
	r.GET("/a", func(c *Context) { c.Set("user", "alice"); c.String(200, "x") })
	e := r.Handler(WithNoFoundHandlers(func(c *Context) {
		if c.Environ.Has("user") {
			t.Error("sees another request's user")
		}
		c.String(404, "no")
	}))
	for i := 0; i < 50; i++ {
		serveDemo(e, "GET", "/a")
		serveDemo(e, "GET", "/b")
	}
''')),
 dict(id="query-uint-half", property="Q01",
  needs="an unsigned query value of 2^63 or more",
  breaks="the upper half of the uint64 range reads as the largest int64",
  edits=[("query.go", '''// QueryUint64 returns uint64
func (ctx *Context) QueryUint64(name string) uint64 {
	v, _ := strconv.ParseUint(ctx.Query(name), 10, 64)
	return v
''', '''// QueryUint64 returns uint64
func (ctx *Context) QueryUint64(name string) uint64 {
	v, _ := strconv.ParseInt(ctx.Query(name), 10, 64)
	if v < 0 {
		return 0
	}
	return uint64(v)
''')],
  demo=T('''	r := NewRouter()
	var got uint64
	r.GET("/a", func(c *Context) { got = c.QueryUint64("n") })
	e := r.Handler()
	serveDemo(e, "GET", "/a?n=18446744073709551615")
	if got != 18446744073709551615 {
		t.Fatal(got)
	}
''')),
 dict(id="static-table-clean", property="R04",
  needs="the static-route option and a path with an empty or dot segment",
  breaks="with the static-route option paths such as /a//b are answered by the route /a/b",
  edits=[("engine.go", "ctx.endNode = e.routersStatic[index][req.URL.Path]", "ctx.endNode = e.routersStatic[index][path.Clean(req.URL.Path)]"),
         ("engine.go", '	"reflect"\n', '	"path"\n	"reflect"\n')],
  demo=T('''	r := NewRouter()
	r.GET("/a/b", func(c *Context) { c.String(200, "x") })
	for _, p := range []string{"/a//b", "/a/./b", "/c/../a/b"} {
		plain, table := serveDemo(r.Handler(), "GET", p).Code, serveDemo(r.Handler(WithStaticRouter(true)), "GET", p).Code
		if plain != table {
			t.Fatal(p, plain, table)
		}
	}
''')),
 dict(id="disposition-plus", property="D01",
  needs="a file name with a space, served as a download",
  breaks="spaces of the name arrive as plus signs",
  edits=[("util.go", "		dispositionType, url.PathEscape(fileName), url.PathEscape(fileName))", "		dispositionType, url.PathEscape(fileName), url.QueryEscape(fileName))")],
  demo=T('''	r := NewRouter()
	r.GET("/a", func(c *Context) { c.Attachment("my file.txt", time.Time{}, strings.NewReader("x")) })
	_, p, err := mime.ParseMediaType(serveDemo(r.Handler(), "GET", "/a").Header().Get("Content-Disposition"))
	if err != nil || p["filename"] != "my file.txt" {
		t.Fatal(p, err)
	}
''', "mime", "strings", "time")),
 dict(id="sub-holder-early-param", property="R02",
  needs="a route with a placeholder in the middle that is tried first and fails further down, then a catch-all that answers",
  breaks="the parameters of an abandoned alternative stay among those the handler sees",
  edits=[("tree.go", '''			if end := n.subNodes[i].matchNextSegment(globLevel, uri, params); end != nil {
				if n.subNodes[i].parsedPattern != "_" {
					params[n.subNodes[i].parsedPattern] = segment
				}
				return end
			}
		case _PATTERN_MATCH_ALL:''', '''			if n.subNodes[i].parsedPattern != "_" {
				params[n.subNodes[i].parsedPattern] = segment
			}
			if end := n.subNodes[i].matchNextSegment(globLevel, uri, params); end != nil {
				return end
			}
		case _PATTERN_MATCH_ALL:''')],
  demo=T('''	r := NewRouter()
	var got Params
	h := func(c *Context) { got = c.Params; c.String(200, "x") }
	r.GET("/a/:id/x", h)
	r.GET("/a/*", h)
	serveDemo(r.Handler(), "GET", "/a/7/y")
	if len(got) != 1 || got["*0"] != "7/y" {
		t.Fatal(got)
	}
''')),

 dict(id="sub-tie-order", property="R01",
  needs="two different regular-expression segments at the same inner place that both match",
  breaks="the one registered later answers instead of the earlier one",
  edits=[("tree.go", "		if sub.typ < n.subNodes[i].typ {", "		if sub.typ < n.subNodes[i].typ || sub.typ == n.subNodes[i].typ && sub.typ == _PATTERN_REGEXP && len(sub.wildcards) > len(n.subNodes[i].wildcards) {")],
  demo=T("""	r := NewRouter()
	got := ""
	r.GET("/<a ~ [0-9]+>/x", func(c *Context) { got = "one"; c.String(200, "x") })
	r.GET("/<a,b ~ ([0-9])([0-9]*)>/x", func(c *Context) { got = "two"; c.String(200, "x") })
	serveDemo(r.Handler(), "GET", "/12/x")
	if got != "one" {
		t.Fatal(got)
	}
""")),
 dict(id="notfound-memo", property="R01",
  needs="a path asked for first with a method it is not registered for",
  breaks="a path not found once stays not found for every method",
  edits=[("engine.go", "	ctxPool       sync.Pool\n", "	ctxPool       sync.Pool\n	misses        sync.Map\n"),
         ("engine.go", "	if ctx.endNode == nil {\n		// curl", "	if _, miss := e.misses.Load(req.URL.Path); ctx.endNode == nil && !miss {\n		// curl"),
         ("engine.go", "	if ctx.endNode == nil {\n		if len(e.options.NoFoundHandlers)", "	if ctx.endNode == nil {\n		e.misses.Store(req.URL.Path, true)\n		if len(e.options.NoFoundHandlers)")],
  demo=T("""	r := NewRouter()
	r.GET("/a", func(c *Context) { c.String(200, "x") })
	e := r.Handler()
	serveDemo(e, "POST", "/a")
	if code := serveDemo(e, "GET", "/a").Code; code != 200 {
		t.Fatal(code)
	}
""")),
 dict(id="static-leaf-typ", property="R04",
  needs="the static-route option, a route with a parameter before a literal end, and a request that spells out the pattern",
  breaks="a parameter route is put in the static table under its own pattern text: requested literally it runs without its parameters",
  edits=[("engine.go", "	return isStaticRoute(node.parent)\n}", "	return node.parent == nil || len(node.parent.wildcards) == 0\n}")],
  demo=T("""	r := NewRouter()
	n := -1
	r.GET("/*/x/y", func(c *Context) { n = len(c.Params); c.String(200, "x") })
	serveDemo(r.Handler(WithStaticRouter(true)), "GET", "/*/x/y")
	if n != 1 {
		t.Fatal(n)
	}
""")),
 dict(id="catchall-squeeze", property="R02",
  needs="a catch-all whose remainder has two slashes in a row",
  breaks="the captured remainder is not the text of the path",
  edits=[("tree.go", """				params["*"+strconv.Itoa(globLevel)] = segment + "/" + uri
			}
			return end""", """				params["*"+strconv.Itoa(globLevel)] = segment + "/" + strings.TrimLeft(uri, "/")
			}
			return end""")],
  demo=T("""	r := NewRouter()
	got := ""
	r.GET("/f/*", func(c *Context) { got = c.Param("*0"); c.String(200, "x") })
	serveDemo(r.Handler(), "GET", "/f/a//b")
	if got != "a//b" {
		t.Fatal(got)
	}
""")),
 dict(id="method-fold", property="R03",
  needs="a request whose method is in another letter case",
  breaks="a request with method 'get' is served by the routes of GET instead of getting 405",
  edits=[("engine.go", "	index := MethodIndex(req.Method)\n", "	index, known := _HTTP_METHODS[strings.ToUpper(req.Method)]\n"),
         ("engine.go", "	if index < 0 {", "	if !known {"),
         ("engine.go", '	"sync"\n', '	"strings"\n	"sync"\n')],
  demo=T("""	r := NewRouter()
	r.GET("/a", func(c *Context) { c.String(200, "x") })
	if code := serveDemo(r.Handler(), "get", "/a").Code; code != 405 {
		t.Fatal(code)
	}
""")),
 dict(id="proto-minor", property="R03",
  needs="a request of a protocol older than HTTP/1.0",
  breaks="an HTTP/0.9 request is served",
  edits=[("engine.go", "	if !req.ProtoAtLeast(1, 1) ||", "	if req.ProtoMajor == 1 && req.ProtoMinor == 0 ||")],
  demo=T("""	r := NewRouter()
	r.GET("/a", func(c *Context) { c.String(200, "x") })
	q := httptest.NewRequest("GET", "/a", nil)
	q.Proto, q.ProtoMajor, q.ProtoMinor = "HTTP/0.9", 0, 9
	w := httptest.NewRecorder()
	r.Handler().ServeHTTP(w, q)
	if w.Code != 406 {
		t.Fatal(w.Code)
	}
""")),
 dict(id="nofound-use-for-before", property="R05",
  needs="not-found handlers on a router with ordinary middleware but no global one",
  breaks="the ordinary middleware runs for requests no route matches",
  edits=[("router.go", "	if len(o.NoFoundHandlers) > 0 && len(r.gbefores) > 0 {\n		hstmp := make([]Handler, len(r.gbefores))\n		copy(hstmp, newHandlers(r.gbefores))\n",
          "	if len(o.NoFoundHandlers) > 0 {\n		before := r.gbefores\n		if len(before) == 0 {\n			before = r.befores\n		}\n		hstmp := make([]Handler, len(before))\n		copy(hstmp, newHandlers(before))\n")],
  demo=T("""	r := NewRouter()
	ran := false
	r.Use(func(c *Context) { ran = true })
	r.GET("/a", func(c *Context) { c.String(200, "x") })
	serveDemo(r.Handler(WithNoFoundHandlers(func(c *Context) { c.String(404, "no") })), "GET", "/b")
	if ran {
		t.Fatal("middleware ran")
	}
""")),
 dict(id="no-trailing-check", property="R06",
  needs="a registered pattern that ends with a slash and has at least two segments",
  breaks="such a pattern is accepted instead of refused",
  edits=[("util.go", "	return n > 0 && pattern[0] == '/' && pattern[n-1] != '/'", "	return n > 0 && pattern[0] == '/' && (pattern[n-1] != '/' || strings.Count(pattern, \"/\") > 2)")],
  demo=T("""	defer func() {
		if recover() == nil {
			t.Fatal("accepted")
		}
	}()
	r := NewRouter()
	r.GET("/a/b/", func(c *Context) { c.String(200, "x") })
	r.Handler()
""")),
 dict(id="group-mw-prepend", property="C01",
  needs="a group created with two middlewares",
  breaks="middleware passed when the group is created runs in reverse order",
  edits=[("router.go", "			v(rr)\n", "			v(rr)\n			rr.gbefores, rr.befores = rr.befores, nil\n")],
  demo=T("""	r := NewRouter()
	s := ""
	r.Group("/g", func(q *Router) {
		q.Use(func(c *Context) { s += "1" })
		q.GET("/a", func(c *Context) { s += "h"; c.String(200, "x") })
	}, func(q *Router) {
		q.Use(func(c *Context) { s += "2" })
	})
	serveDemo(r.Handler(), "GET", "/g/a")
	if s != "12h" {
		t.Fatal(s)
	}
""")),
 dict(id="std-func-raw-writer", property="C02",
  needs="a standard-library handler function that answers, followed by another handler",
  breaks="its answer does not count as a started response, later handlers still run",
  edits=[("engine.go", "			h(ctx, ctx.Request)", "			h(ctx.ResponseWriter, ctx.Request)")],
  demo=T("""	r := NewRouter()
	ran := false
	r.GET("/a", func(w http.ResponseWriter, q *http.Request) { w.WriteHeader(201) }, func(c *Context) { ran = true })
	serveDemo(r.Handler(), "GET", "/a")
	if ran {
		t.Fatal("ran")
	}
""")),
 dict(id="nofound-live-before", property="C03",
  needs="global middleware added after the engine was built, and a request no route matches",
  breaks="the engine's not-found chain changes with the router",
  edits=[("engine.go", "			ctx.handlers = e.options.NoFoundHandlers\n", "			ctx.handlers = append(newHandlers(e.rootRouter.gbefores), e.options.NoFoundHandlers...)\n"),
         ("router.go", "	if len(o.NoFoundHandlers) > 0 && len(r.gbefores) > 0 {\n		hstmp := make([]Handler, len(r.gbefores))\n		copy(hstmp, newHandlers(r.gbefores))\n\n		hstmp = append(hstmp, o.NoFoundHandlers...)\n		o.NoFoundHandlers = hstmp\n	}\n", "")],
  demo=T("""	r := NewRouter()
	ran := false
	r.GET("/a", func(c *Context) { c.String(200, "x") })
	e := r.Handler(WithNoFoundHandlers(func(c *Context) { c.String(404, "no") }))
	r.Before(func(c *Context) { ran = true })
	serveDemo(e, "GET", "/b")
	if ran {
		t.Fatal("ran")
	}
""")),
 dict(id="redirect-raw", property="S01",
  needs="a handler that redirects with 302 and then another write or handler",
  breaks="a temporary redirect is not counted as the started response",
  edits=[("content.go", "	http.Redirect(ctx, ctx.Request, uri, http.StatusFound)", "	http.Redirect(ctx.ResponseWriter, ctx.Request, uri, http.StatusFound)")],
  demo=T("""	r := NewRouter()
	written, status := false, 0
	r.GET("/a", func(c *Context) { c.Found("/b"); written, status = c.Written(), c.Status() })
	serveDemo(r.Handler(), "GET", "/a")
	if !written || status != 302 {
		t.Fatal(written, status)
	}
""")),
 dict(id="htmlraw-lenient-type", property="S02",
  needs="a raw HTML answer that does not start like an HTML document",
  breaks="its content type is guessed from the content",
  edits=[("content.go", "	ctx.Header().Set(HeaderContentType, MIMETextHTMLCharsetUTF8)\n	ctx.WriteHeader(code)\n	ctx.Write([]byte(str))", "	if ct := http.DetectContentType([]byte(str)); len(str) == 0 || strings.Contains(str, \"<\") {\n		ctx.Header().Set(HeaderContentType, MIMETextHTMLCharsetUTF8)\n	} else {\n		ctx.Header().Set(HeaderContentType, ct)\n	}\n	ctx.WriteHeader(code)\n	ctx.Write([]byte(str))")],
  demo=T("""	r := NewRouter()
	r.GET("/a", func(c *Context) { c.HTMLRaw(200, "plain words") })
	if ct := serveDemo(r.Handler(), "GET", "/a").Header().Get("Content-Type"); ct != "text/html; charset=utf-8" {
		t.Fatal(ct)
	}
""")),
 dict(id="recovery-abort-handler", property="S03",
  needs="a handler that panics with http.ErrAbortHandler",
  breaks="that panic escapes the recovery middleware and the engine",
  edits=[("m_recovery.go", "				content := fmt.Sprintf(", "				if err == http.ErrAbortHandler {\n					panic(err)\n				}\n				content := fmt.Sprintf(")],
  demo=T("""	r := NewRouter()
	r.Use(Recovery())
	r.GET("/a", func(c *Context) { panic(http.ErrAbortHandler) })
	if code := serveDemo(r.Handler(), "GET", "/a").Code; code != 500 {
		t.Fatal(code)
	}
""")),
 dict(id="logger-url-first", property="S04",
  needs="a logged request with a query",
  breaks="the log line carries the path without the query",
  edits=[("m_logger.go", "			ctx.Request.URL.String(),", "			ctx.Request.URL.EscapedPath(),")],
  demo=T("""	LogClose, LogColor = false, false
	file := t.TempDir() + "/log"
	f, _ := os.Create(file)
	old := os.Stdout
	os.Stdout = f
	l := logx.NewLogger()
	l.AddLogger("console", `{"color":false}`)
	os.Stdout = old
	logx.SetOutput(l)
	r := NewRouter()
	r.Use(Logger())
	r.GET("/a", func(c *Context) { c.String(200, "x") })
	serveDemo(r.Handler(), "GET", "/a?q=1")
	b, _ := os.ReadFile(file)
	if !strings.Contains(string(b), "/a?q=1") {
		t.Fatalf("%q", b)
	}
""", "os", "strings", "github.com/meilihao/logx")),
 dict(id="parsed-kept", property="I01",
  needs="a not-found handler that reads the query, then an ordinary request served from the same context",
  breaks="the later request's form is taken as parsed already, its values are missing",
  edits=[("context.go", "	ctx.parsedParams = false\n", "	if ctx.status != 404 {\n		ctx.parsedParams = false\n	}\n"),
         ("context.go", "	ctx.written = false\n	ctx.status = 0\n", "	ctx.written = false\n	defer func() { ctx.status = 0 }()\n")],
  demo=T("""	r := NewRouter()
	got := ""
	r.GET("/a", func(c *Context) { got = c.Query("q"); c.String(200, "x") })
	e := r.Handler(WithNoFoundHandlers(func(c *Context) { c.Query("q"); c.String(404, "no") }))
	for i := 0; i < 50; i++ {
		serveDemo(e, "GET", "/b?q=1")
		serveDemo(e, "GET", "/a?q=2")
		if got != "2" {
			t.Fatal(got)
		}
		got = ""
	}
""")),
 dict(id="logger-shared-body", property="I02",
  needs="two logged requests with JSON bodies at the same time",
  breaks="the body text to be logged is shared by all requests: a data race, and one request's body in another's log line",
  race=True,
  edits=[("m_logger.go", "func Logger() HandlerFunc {\n	return func(ctx *Context) {\n", "func Logger() HandlerFunc {\n	body := \"\"\n	return func(ctx *Context) {\n"),
         ("m_logger.go", "		start := time.Now()\n		body := \"\"\n", "		start := time.Now()\n		body = \"\"\n")],
  demo=T("""	LogClose = false
	logx.SetOutput(logx.NewLogger())
	r := NewRouter()
	r.Use(Logger())
	r.POST("/a", func(c *Context) { c.String(200, "x") })
	e := r.Handler()
	var wg sync.WaitGroup
	for i := 0; i < 8; i++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			for j := 0; j < 50; j++ {
				q := httptest.NewRequest("POST", "/a", strings.NewReader("{}"))
				q.Header.Set("Content-Type", "application/json")
				e.ServeHTTP(httptest.NewRecorder(), q)
			}
		}()
	}
	wg.Wait()
""", "strings", "sync", "github.com/meilihao/logx")),
 dict(id="environ-nil-reset", property="E01",
  needs="a name set to nil and then set again",
  breaks="the second set is accepted",
  edits=[("environ.go", "	if c.Environ.Has(name) {\n", "	if c.Environ[name] != nil {\n")],
  demo=T("""	r := NewRouter()
	r.GET("/a", func(c *Context) {
		defer func() {
			if recover() == nil {
				t.Error("set twice")
			}
			c.String(200, "x")
		}()
		c.Set("k", nil)
		c.Set("k", 1)
	})
	serveDemo(r.Handler(), "GET", "/a")
""")),
 dict(id="cors-wildcard-credentials", property="M01",
  needs="credentials configured together with the origin '*'",
  breaks="the configured credentials are not sent",
  edits=[("m_cors.go", "	maxAge := strconv.Itoa(config.MaxAge)\n", "	maxAge := strconv.Itoa(config.MaxAge)\n	config.AllowCredentials = config.AllowCredentials && allowMethods != \"\" && config.AllowOrigins[0] != \"*\"\n")],
  demo=T("""	r := NewRouter()
	r.Use(CORS(CORSConfig{AllowCredentials: true}))
	r.GET("/", func(c *Context) { c.String(200, "x") })
	if g := serveDemo(r.Handler(), "GET", "/", "Origin", "https://a.example").Header().Get("Access-Control-Allow-Credentials"); g != "true" {
		t.Fatal(g)
	}
""")),
 dict(id="cors-origin-fold", property="M01",
  needs="an Origin that differs from a configured one in letter case only",
  breaks="it is granted",
  edits=[("m_cors.go", '			if o == "*" || o == origin {', '			if o == "*" || strings.EqualFold(o, origin) {')],
  demo=T("""	r := NewRouter()
	r.Use(CORS(CORSConfig{AllowOrigins: []string{"https://a.example"}}))
	r.GET("/", func(c *Context) { c.String(200, "x") })
	if g := serveDemo(r.Handler(), "GET", "/", "Origin", "https://A.example").Header().Get("Access-Control-Allow-Origin"); g != "" {
		t.Fatal(g)
	}
""")),
 dict(id="static-double-decode", property="M02",
  needs="a file whose name looks percent-encoded",
  breaks="the file name is decoded once more, another file is served",
  edits=[("m_static.go", "		f, err := opt.FileSystem.Open(ctx.Param(\"*0\"))\n", "		name, err := url.PathUnescape(ctx.Param(\"*0\"))\n		if err != nil {\n			name = ctx.Param(\"*0\")\n		}\n		f, err := opt.FileSystem.Open(name)\n")],
  demo=T("""	d := t.TempDir()
	os.WriteFile(d+"/a%41.txt", []byte("percent"), 0600)
	os.WriteFile(d+"/aA.txt", []byte("plain"), 0600)
	r := NewRouter()
	r.Static("/f", d)
	if b := serveDemo(r.Handler(), "GET", "/f/a%2541.txt").Body.String(); b != "percent" {
		t.Fatal(b)
	}
""", "os")),
 dict(id="etag-lower-name", property="M03",
  needs="two files whose names differ in letter case only, of the same size and time, with the second tag scheme",
  breaks="they get the same tag",
  edits=[("m_static.go", "GenerateETag2(fi.ModTime(), fi.Size(), fi.Name())", "GenerateETag2(fi.ModTime(), fi.Size(), strings.ToLower(fi.Name()))")],
  demo=T("""	d := t.TempDir()
	now := time.Now()
	for _, n := range []string{"/a.txt", "/A.txt"} {
		os.WriteFile(d+n, []byte("x"), 0600)
		os.Chtimes(d+n, now, now)
	}
	r := NewRouter()
	r.StaticAdvance(&StaticOptions{Prefix: "/f", FileSystem: http.Dir(d), ETag: ETagType2})
	e := r.Handler()
	if serveDemo(e, "GET", "/f/a.txt").Header().Get("ETag") == serveDemo(e, "GET", "/f/A.txt").Header().Get("ETag") {
		t.Fatal("same tag")
	}
""", "os", "time")),
 dict(id="expires-once", property="M03",
  needs="an expiry function whose value changes between requests",
  breaks="the expiry is computed once, when the route is registered",
  edits=[("m_static.go", "	h := func(ctx *Context) {\n", "	expires := \"\"\n	if opt.Expires != nil {\n		expires = opt.Expires()\n	}\n\n	h := func(ctx *Context) {\n"),
         ("m_static.go", "			ctx.Header().Set(\"Expires\", opt.Expires())", "			ctx.Header().Set(\"Expires\", expires)")],
  demo=T("""	d := t.TempDir()
	os.WriteFile(d+"/a", []byte("x"), 0600)
	n := 0
	r := NewRouter()
	r.StaticAdvance(&StaticOptions{Prefix: "/f", FileSystem: http.Dir(d), Expires: func() string { n++; return strconv.Itoa(n) }})
	e := r.Handler()
	if serveDemo(e, "GET", "/f/a").Header().Get("Expires") == serveDemo(e, "GET", "/f/a").Header().Get("Expires") {
		t.Fatal("same")
	}
""", "os", "strconv")),
 dict(id="default-query-blank", property="Q01",
  needs="a name that is present with an empty value, read with a default",
  breaks="the default is returned although the name is present",
  edits=[("query.go", "	if !ctx.queryExist(name) {\n		return defaultValue\n	}\n", "	if !ctx.queryExist(name) || ctx.Request.Form[name][0] == \"\" && len(ctx.Request.Form[name]) == 1 {\n		return defaultValue\n	}\n")],
  demo=T("""	r := NewRouter()
	got := ""
	r.GET("/a", func(c *Context) { got = c.DefaultQuery("q", "d"); c.String(200, "x") })
	serveDemo(r.Handler(), "GET", "/a?q=")
	if got != "" {
		t.Fatal(got)
	}
""")),
 dict(id="param-any-base", property="Q02",
  needs="a number with a leading zero or base prefix in the path",
  breaks="it is read in another base",
  edits=[("params.go", "	return strconv.ParseInt(p.String(name), 10, 64)", "	return strconv.ParseInt(p.String(name), 0, 64)")],
  demo=T("""	n, err := Params{"a": "010"}.Int64("a")
	if n != 10 || err != nil {
		t.Fatal(n, err)
	}
""")),
 dict(id="cookie-age-32", property="Q03",
  needs="a max-age given as int64 beyond 32 bits",
  breaks="the attribute is truncated",
  edits=[("cookie.go", "		case int64:\n			cookie.MaxAge = int(v)", "		case int64:\n			cookie.MaxAge = int(int32(v))")],
  demo=T("""	r := NewRouter()
	r.GET("/a", func(c *Context) { c.SetCookie("a", "b", int64(1)<<32+5); c.String(200, "x") })
	if g := serveDemo(r.Handler(), "GET", "/a").Header().Get("Set-Cookie"); g != "a=b; Path=/; Max-Age=4294967301" {
		t.Fatal(g)
	}
""")),
 dict(id="realip-validated", property="Q04",
  needs="an X-Real-IP that is not a plain address",
  breaks="it is ignored although present",
  edits=[("util.go", "	if ip == \"\" {\n", "	if ip == \"\" || net.ParseIP(ip) == nil {\n"), ("util.go", '	"fmt"\n	"net/http"', '	"fmt"\n	"net"\n	"net/http"')],
  demo=T("""	r := NewRouter()
	got := ""
	r.GET("/a", func(c *Context) { got = c.RealIp(); c.String(200, "x") })
	serveDemo(r.Handler(), "GET", "/a", "X-Real-IP", "unknown")
	if got != "unknown" {
		t.Fatal(got)
	}
""")),
 dict(id="download-no-time", property="D01",
  needs="a conditional request for a downloaded file",
  breaks="the modification time is not sent, conditional requests are not honoured",
  edits=[("content.go", "	http.ServeContent(ctx, ctx.Request, fi.Name(), fi.ModTime(), f)\n\n	return nil", "	http.ServeContent(ctx, ctx.Request, fi.Name(), time.Time{}, f)\n\n	return nil")],
  demo=T("""	p := t.TempDir() + "/a.txt"
	os.WriteFile(p, []byte("x"), 0600)
	r := NewRouter()
	r.GET("/a", func(c *Context) { c.Download(p) })
	e := r.Handler()
	if code := serveDemo(e, "GET", "/a", "If-Modified-Since", time.Now().Add(time.Hour).UTC().Format(http.TimeFormat)).Code; code != 304 {
		t.Fatal(code)
	}
""", "os", "time")),
 dict(id="list-variant-uri", property="P01",
  needs="a route whose parameter is written in the colon form",
  breaks="the all-routes listing shows the translated pattern, not the registered one",
  edits=[("router_print.go", "len(v.handlers), v.uri)", "len(v.handlers), v.variantUri)")],
  demo=T("""	r := NewRouter()
	r.GET("/:id", func(c *Context) { c.String(200, "x") })
	e := r.Handler()
	old := os.Stdout
	rd, wr, _ := os.Pipe()
	os.Stdout = wr
	e.PrintRawAllRoutes()
	os.Stdout = old
	wr.Close()
	b, _ := io.ReadAll(rd)
	if string(b) != "[GET     : 1] /:id\\n" {
		t.Fatalf("%q", b)
	}
""", "io", "os")),
 dict(id="delete-binds-form", property="B01",
  needs="a DELETE request with a JSON body",
  breaks="its body is not read, the form is bound instead",
  edits=[("binding/binding.go", "	if method == http.MethodGet {", "	if method == http.MethodGet || method == http.MethodDelete {")],
  demo=T("""	r := NewRouter()
	var o struct {
		A string `json:"a"`
	}
	r.DELETE("/a", func(c *Context) { c.Bind(&o); c.String(200, "x") })
	q := httptest.NewRequest("DELETE", "/a", strings.NewReader(`{"a":"b"}`))
	q.Header.Set("Content-Type", "application/json")
	r.Handler().ServeHTTP(httptest.NewRecorder(), q)
	if o.A != "b" {
		t.Fatal(o)
	}
""", "strings")),
 dict(id="xml-empty-ok", property="B01",
  needs="an XML request with an empty body",
  breaks="binding succeeds although nothing could be decoded",
  edits=[("binding/xml.go", "	if err := decoder.Decode(obj); err != nil {", "	if err := decoder.Decode(obj); err != nil && err != io.EOF {"),
         ("binding/xml.go", '	"encoding/xml"\n', '	"encoding/xml"\n	"io"\n')],
  demo=T("""	r := NewRouter()
	var err error
	r.POST("/a", func(c *Context) {
		var o struct {
			A string `xml:"a"`
		}
		err = c.Bind(&o)
		c.String(200, "x")
	})
	q := httptest.NewRequest("POST", "/a", strings.NewReader(""))
	q.Header.Set("Content-Type", "text/xml")
	r.Handler().ServeHTTP(httptest.NewRecorder(), q)
	if err == nil {
		t.Fatal("empty body bound")
	}
""", "strings")),
 dict(id="embedded-error-lost", property="B02",
  needs="a malformed value for a field of an embedded struct",
  breaks="the error is swallowed, binding succeeds",
  edits=[("binding/map_form.go", "			if err := _mapForm(structField, form, formfile, tag); err != nil {", "			if err := _mapForm(structField, form, formfile, tag); err != nil && !typeField.Anonymous {")],
  demo=T("""	type In struct {
		N int `form:"n"`
	}
	var o struct {
		In
	}
	if err := binding.MapForm(&o, map[string][]string{"n": {"x"}}, nil, "form"); err == nil {
		t.Fatal("no error")
	}
""", "github.com/meilihao/water/binding")),
 dict(id="validate-first-error", property="B03",
  needs="a list of which only a later element is invalid",
  breaks="only the first elements of a list are validated",
  edits=[("binding/validator.go", "		for i := 0; i < count; i++ {", "		for i := 0; i < count && (i < 3 || len(validateRet) > 0); i++ {")],
  demo=T("""	type el struct {
		N int `json:"n" binding:"required"`
	}
	l := []el{{1}, {1}, {1}, {0}}
	if binding.Validator.ValidateStruct(&l) == nil {
		t.Fatal("accepted")
	}
""", "github.com/meilihao/water/binding")),
 dict(id="save-limited", property="B04",
  needs="an uploaded file larger than the engine's multipart memory limit, saved through the context",
  breaks="the saved copy is cut at the limit",
  edits=[("content.go", "	_, err = io.Copy(f, src)\n", "	_, err = io.Copy(f, io.LimitReader(src, ctx.maxMultipartMemory))\n")],
  demo=T("""	p := t.TempDir() + "/out"
	r := NewRouter()
	r.POST("/a", func(c *Context) {
		c.ParseFormOrMultipartForm()
		c.SaveUploadedFile(c.Request.MultipartForm.File["f"][0], p)
		c.String(200, "x")
	})
	var b bytes.Buffer
	m := multipart.NewWriter(&b)
	w, _ := m.CreateFormFile("f", "a.txt")
	w.Write([]byte("0123456789"))
	m.Close()
	q := httptest.NewRequest("POST", "/a", &b)
	q.Header.Set("Content-Type", m.FormDataContentType())
	r.Handler(WithMaxMultipartMemory(4)).ServeHTTP(httptest.NewRecorder(), q)
	if g, _ := os.ReadFile(p); string(g) != "0123456789" {
		t.Fatalf("%q", g)
	}
""", "bytes", "mime/multipart", "os")),
]
import os
exec(open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "seeds2.py")).read())
exec(open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "seeds3.py")).read())
exec(open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "seeds4.py")).read())
exec(open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "seeds5.py")).read())
exec(open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "seeds6.py")).read())
exec(open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "seeds7.py")).read())
exec(open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "seeds8.py")).read())
