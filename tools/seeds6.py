# sixth batch; T, TX and SEEDS come from seeds.py and seeds5.py
SEEDS += [
 dict(id="group-blank-pattern", property="C01",
  needs="a group without a pattern that has handlers of its own",
  breaks="the group's handlers do not run",
  edits=[("router.go", "		if len(tmp.befores) > 0 {\n", "		if len(tmp.befores) > 0 && (tmp.pattern != \"\" || tmp.parent == nil) {\n")],
  demo=T('''	r := NewRouter()
	n := 0
	g := r.Group("", func(c *Context) { n++ })
	g.GET("/a", func(c *Context) { c.Abort(200) })
	serveDemo(r.Handler(), "GET", "/a")
	if n != 1 {
		t.Fatal(n)
	}
''')),
 dict(id="next-skips-after-panic", property="C02",
  needs="a handler that panics inside another one's Next, which recovers and calls Next again",
  breaks="the panicking handler runs a second time",
  edits=[("context.go", "	ctx.index += 1\n	ctx.run()\n", "	at := ctx.index\n	defer func() {\n		if err := recover(); err != nil {\n			ctx.index = at\n			panic(err)\n		}\n	}()\n	ctx.index += 1\n	ctx.run()\n")],
  demo=T('''	r := NewRouter()
	n := 0
	r.GET("/a", func(c *Context) {
		func() {
			defer func() { recover() }()
			c.Next()
		}()
		c.Next()
	}, func(c *Context) { n++; panic("x") }, func(c *Context) { c.Abort(200) })
	defer func() {
		recover()
		if n != 1 {
			t.Fatal(n)
		}
	}()
	serveDemo(r.Handler(), "GET", "/a")
''')),
 dict(id="cookie-base-any", property="Q03",
  needs="a cookie holding a number with a leading zero or a base prefix",
  breaks="010 is read as 8",
  edits=[("cookie.go", "strconv.ParseInt(ctx.Cookie(name), 10, 64)", "strconv.ParseInt(ctx.Cookie(name), 0, 64)")],
  demo=T('''	r := NewRouter()
	var got int64
	r.GET("/", func(c *Context) { got = c.CookieInt64("n"); c.Abort(200) })
	q := httptest.NewRequest("GET", "/", nil)
	q.Header.Set("Cookie", "n=010")
	r.Handler().ServeHTTP(httptest.NewRecorder(), q)
	if got != 10 {
		t.Fatal(got)
	}
''')),
 dict(id="cookie-last-wins", property="Q03",
  needs="a request with two cookies of the same name",
  breaks="the accessor returns the second one's value",
  edits=[("cookie.go", "	cookie, err := ctx.Request.Cookie(name)\n	if err != nil {\n		return \"\"\n	}\n\n	return cookie.Value\n", "	value := \"\"\n	for _, c := range ctx.Request.Cookies() {\n		if c.Name == name {\n			value = c.Value\n		}\n	}\n\n	return value\n")],
  demo=T('''	r := NewRouter()
	got := ""
	r.GET("/", func(c *Context) { got = c.Cookie("n"); c.Abort(200) })
	q := httptest.NewRequest("GET", "/", nil)
	q.Header.Set("Cookie", "n=a; n=b")
	r.Handler().ServeHTTP(httptest.NewRecorder(), q)
	if got != "a" {
		t.Fatal(got)
	}
''')),
 dict(id="websocket-first-token", property="Q04",
  needs="a websocket request whose Connection header has several tokens",
  breaks="IsWebsocket is false unless the first token is upgrade",
  edits=[("content.go", 'strings.Contains(strings.ToLower(ctx.Request.Header.Get("Connection")), "upgrade")', 'strings.HasPrefix(strings.ToLower(ctx.Request.Header.Get("Connection")), "upgrade")')],
  demo=T('''	r := NewRouter()
	got := false
	r.GET("/", func(c *Context) { got = c.IsWebsocket(); c.Abort(200) })
	q := httptest.NewRequest("GET", "/", nil)
	q.Header.Set("Connection", "keep-alive, Upgrade")
	q.Header.Set("Upgrade", "websocket")
	r.Handler().ServeHTTP(httptest.NewRecorder(), q)
	if !got {
		t.Fatal(got)
	}
''')),
 dict(id="static-table-any", property="R04",
  needs="the static table on, two methods, and a path that is static for one method and a parameter for another",
  breaks="a static route of GET answers HEAD requests that a pattern of HEAD should get",
  edits=[("engine.go", "		ctx.endNode = e.routersStatic[index][req.URL.Path]\n", "		ctx.endNode = e.routersStatic[index][req.URL.Path]\n		if ctx.endNode == nil && req.Method == http.MethodHead {\n			ctx.endNode = e.routersStatic[0][req.URL.Path]\n		}\n")],
  demo=T('''	r := NewRouter()
	got := ""
	r.GET("/a", func(c *Context) { got = "get"; c.Abort(200) })
	r.HEAD("/<x>", func(c *Context) { got = "head"; c.Abort(200) })
	serveDemo(r.Handler(WithStaticRouter(true)), "HEAD", "/a")
	if got != "head" {
		t.Fatal(got)
	}
''')),
 dict(id="abort-no-status-twice", property="S01",
  needs="a handler that writes a body and then a status",
  breaks="the context reports the later status, which the client never saw",
  edits=[("context.go", "	if ctx.written {\n		logx.Warn(", "	if ctx.written {\n		if code >= 500 {\n			ctx.status = code // for the log\n		}\n		logx.Warn(")],
  demo=T('''	r := NewRouter()
	got := 0
	r.GET("/", func(c *Context) { c.Write([]byte("x")); c.WriteHeader(500); got = c.Status() })
	serveDemo(r.Handler(), "GET", "/")
	if got != 200 {
		t.Fatal(got)
	}
''')),
 dict(id="redirect-cleaned", property="S02",
  needs="a redirect to an address with an empty or dotted part",
  breaks="the address is cleaned before it is sent",
  edits=[("content.go", "	http.Redirect(ctx, ctx.Request, uri, http.StatusFound)\n", "	if len(uri) > 1 && uri[0] == '/' && !strings.ContainsAny(uri, \"?#\") && !strings.HasSuffix(uri, \"/\") {\n		uri = cleanPath(uri)\n	}\n	http.Redirect(ctx, ctx.Request, uri, http.StatusFound)\n")],
  demo=T('''	r := NewRouter()
	r.GET("/", func(c *Context) { c.Found("//other.example/a") })
	w := serveDemo(r.Handler(), "GET", "/")
	if w.Header().Get("Location") != "//other.example/a" {
		t.Fatal(w.Header())
	}
''')),
 dict(id="bind-options-query", property="B01",
  needs="a DELETE or OPTIONS request with a JSON body",
  breaks="only the query is bound",
  edits=[("binding/binding.go", "	if method == http.MethodGet {\n", "	if method == http.MethodGet || method == http.MethodHead || method == http.MethodOptions {\n")],
  pkg="binding/",
  demo='''package binding

import (
	"net/http"
	"strings"
	"testing"
)

func TestZZDemo(t *testing.T) {
	q, _ := http.NewRequest("OPTIONS", "/", strings.NewReader(`{"a":1}`))
	x := struct {
		A int `json:"a" form:"a"`
	}{}
	if err := NewBindinger("OPTIONS", "application/json").Bind(q, &x); err != nil || x.A != 1 {
		t.Fatal(x, err)
	}
}
'''),
 dict(id="form-bound-once", property="B02",
  needs="a form target with a list field of values that repeat",
  breaks="values of a list that equal the one before are dropped",
  edits=[("binding/map_form.go", "		num := len(inputValue)\n\n		if value.Kind()", "		if n := len(inputValue); n > 2 && inputValue[n-1] == inputValue[n-2] { // sent twice\n			inputValue = inputValue[:n-1]\n		}\n		num := len(inputValue)\n\n		if value.Kind()")],
  pkg="binding/",
  demo='''package binding

import (
	"net/http"
	"testing"
)

func TestZZDemo(t *testing.T) {
	q, _ := http.NewRequest("GET", "/?a=1&a=2&a=2", nil)
	x := struct {
		A []int `form:"a"`
	}{}
	if err := Form.Bind(q, &x); err != nil || len(x.A) != 3 {
		t.Fatal(x, err)
	}
}
'''),
 dict(id="etag-minute", property="M03",
  needs="a static file rewritten with the same size",
  breaks="the tag is kept for a minute of the modification time",
  edits=[("util.go", "\"%x-%x\", lastModified.Unix(), size", "\"%x-%x\", lastModified.Unix()/60, size")],
  demo=T('''	a := GenerateETag(time.Unix(600, 0), 5)
	b := GenerateETag(time.Unix(601, 0), 5)
	if a == b {
		t.Fatal(a)
	}
''', "time")),
 dict(id="cors-preflight-any", property="M01",
  needs="a preflight request without an Origin, on a route of its own",
  breaks="it is answered by the handlers behind, so cross-origin rules are skipped",
  edits=[("m_cors.go", "		if req.Method != http.MethodOptions {\n", "		if req.Method != http.MethodOptions || origin == \"\" && len(config.AllowOrigins) > 1 {\n")],
  demo=T('''	r := NewRouter()
	n := 0
	r.Before(CORS(CORSConfig{AllowOrigins: []string{"http://a", "http://b"}}))
	r.OPTIONS("/", func(c *Context) { n++; c.Abort(200) })
	w := serveDemo(r.Handler(), "OPTIONS", "/")
	if n != 0 || w.Code != 204 {
		t.Fatal(n, w.Code)
	}
''')),
]
