# fourth batch; T and SEEDS come from seeds.py
SEEDS += [
 dict(id="catchall-later-wins", property="R01",
  needs="two named catch-alls at the same place and a request of several segments below it",
  breaks="the catch-all registered last answers instead of the first",
  edits=[("tree.go", "		if end.typ < n.endNodes[i].typ {\n", "		if end.typ < n.endNodes[i].typ || end.typ == _PATTERN_MATCH_ALL {\n")],
  demo=T('''	r := NewRouter()
	got := ""
	r.GET("/f/*a", func(c *Context) { got = "first"; c.Abort(200) })
	r.GET("/f/*b", func(c *Context) { got = "second"; c.Abort(200) })
	serveDemo(r.Handler(), "GET", "/f/x/y")
	if got != "first" {
		t.Fatal(got)
	}
''')),
 dict(id="raw-path-match", property="R02",
  needs="a request whose path has an escaped slash or another escape that is not the default one",
  breaks="routes are matched against the escaped path, so captured values keep their escapes",
  edits=[("engine.go", "		ctx.endNode, ctx.Params = e.routers[index].Match(req.URL.Path)\n",
          "		uri := req.URL.Path\n		if req.URL.RawPath != \"\" { // an escaped slash is no separator\n			uri = req.URL.RawPath\n		}\n		ctx.endNode, ctx.Params = e.routers[index].Match(uri)\n")],
  demo=T('''	r := NewRouter()
	got := ""
	r.GET("/u/<id>", func(c *Context) { got = c.Param("id"); c.Abort(200) })
	serveDemo(r.Handler(), "GET", "/u/a%2Db")
	if got != "a-b" {
		t.Fatal(got)
	}
''')),
 dict(id="glob-named-uncounted", property="R02",
  needs="a named catch-all inside a pattern followed by an unnamed one",
  breaks="the unnamed catch-all's value is stored under the wrong number",
  edits=[("tree.go", "			if end := n.subNodes[i].matchNextSegment(globLevel+1, uri, params); end != nil {\n",
          "			next := globLevel\n			if n.subNodes[i].parsedPattern == \"\" {\n				next++\n			}\n			if end := n.subNodes[i].matchNextSegment(next, uri, params); end != nil {\n")],
  demo=T('''	r := NewRouter()
	var got Params
	r.GET("/*a/x/*", func(c *Context) { got = c.Params; c.Abort(200) })
	serveDemo(r.Handler(), "GET", "/1/x/2")
	if got["*1"] != "2" {
		t.Fatal(got)
	}
''')),
 dict(id="options-star", property="R03",
  needs="an OPTIONS request for the target *",
  breaks="the request is let through to the routes instead of getting 406",
  edits=[("engine.go", 'req.RequestURI == "*" ||', 'req.RequestURI == "*" && req.Method != http.MethodOptions ||')],
  demo=T('''	r := NewRouter()
	r.OPTIONS("/*", func(c *Context) { c.Abort(204) })
	w := httptest.NewRecorder()
	q := httptest.NewRequest("OPTIONS", "*", nil)
	r.Handler().ServeHTTP(w, q)
	if w.Code != 406 {
		t.Fatal(w.Code)
	}
''')),
 dict(id="method-override", property="R03",
  needs="a POST request with a method override header",
  breaks="a route of another method answers it",
  edits=[("engine.go", "	index := MethodIndex(req.Method)\n",
          "	method := req.Method\n	if m := req.Header.Get(\"X-HTTP-Method-Override\"); m != \"\" && method == http.MethodPost {\n		method = m\n	}\n	index := MethodIndex(method)\n")],
  demo=T('''	r := NewRouter()
	got := ""
	r.POST("/a", func(c *Context) { got = "post"; c.Abort(200) })
	r.DELETE("/a", func(c *Context) { got = "delete"; c.Abort(200) })
	q := httptest.NewRequest("POST", "/a", nil)
	q.Header.Set("X-HTTP-Method-Override", "DELETE")
	r.Handler().ServeHTTP(httptest.NewRecorder(), q)
	if got != "post" {
		t.Fatal(got)
	}
''')),
 dict(id="dup-by-variant", property="R06",
  needs="two routes whose patterns differ only in the way a parameter is written",
  breaks="a valid configuration is refused as a double registration",
  edits=[("router.go", "	if rs.routeMap[r.method][r.uri] != nil {\n",
          "	if v := rs.routeMap[r.method][_VariantUri(r.uri)]; v != nil || rs.routeMap[r.method][r.uri] != nil {\n"),
         ],
  demo=T('''	r := NewRouter()
	r.GET("/u/<id>", func(c *Context) {})
	r.GET("/u/:id", func(c *Context) {})
	r.Handler()
''')),
 dict(id="group-classic", property="R06",
  needs="Classic called on a group",
  breaks="a root-only operation is accepted on a group",
  edits=[("router.go", '''	if !r.IsParent() {
		panic("sub router not allowed : Classic()")
	}
''', '''	if r == nil {
		panic("sub router not allowed : Classic()")
	}
''')],
  demo=T('''	defer func() {
		if recover() == nil {
			t.Fatal("accepted")
		}
	}()
	r := NewRouter()
	g := r.Group("/a")
	g.Classic()
	g.GET("/b", func(c *Context) {})
	r.Handler()
''')),
 dict(id="mw-dedupe-adjacent", property="C01",
  needs="the same middleware constructor used twice in a row with different settings",
  breaks="the second one is taken for a repetition and left out",
  edits=[("engine.go", "	for i, h := range handlers {\n		a[i] = newHandler(h)\n	}\n\n	return a\n",
          "	for i, h := range handlers {\n		a[i] = newHandler(h)\n	}\n\n	// a middleware attached twice in a row runs once\n	b := a[:0]\n	for i, h := range a {\n		if i > 0 && i < n-1 && reflect.ValueOf(h).Kind() == reflect.Func && reflect.ValueOf(a[i-1]).Kind() == reflect.Func && reflect.ValueOf(h).Pointer() == reflect.ValueOf(a[i-1]).Pointer() {\n			continue\n		}\n		b = append(b, h)\n	}\n\n	return b\n")],
  demo=T('''	r := NewRouter()
	got := ""
	mw := func(s string) func(*Context) { return func(c *Context) { got += s } }
	r.Use(mw("a"), mw("b"))
	r.GET("/x", func(c *Context) { c.Abort(200) })
	serveDemo(r.Handler(), "GET", "/x")
	if got != "ab" {
		t.Fatal(got)
	}
''')),
 dict(id="late-use-lost", property="C01",
  needs="middleware attached to a group after a route of its subgroup was registered",
  breaks="the middleware does not run for routes registered before it",
  edits=[("router.go", "	parent *Router\n	sub    []*Router\n", "	parent *Router\n	sub    []*Router\n	sees   int // middleware of the parent at the time of the group\n"),
         ("router.go", "		pattern: pattern,\n		parent:  r,\n	}\n\n	r.sub = append(r.sub, rr)\n\n	for i := range is {\n",
          "		pattern: pattern,\n		parent:  r,\n		sees:    len(r.befores),\n	}\n\n	r.sub = append(r.sub, rr)\n\n	for i := range is {\n"),
         ("router.go", "		if len(tmp.befores) > 0 {\n			hstmp := make([]interface{}, len(tmp.befores))\n			copy(hstmp, tmp.befores)\n",
          "		befores := tmp.befores\n		if below != nil && below.method == \"\" && len(below.befores) > 0 && below.sees > 0 {\n			befores = befores[:below.sees]\n		}\n		below = tmp\n		if len(befores) > 0 {\n			hstmp := make([]interface{}, len(befores))\n			copy(hstmp, befores)\n"),
         ("router.go", "	tmp := r\n	for {\n", "	tmp := r\n	var below *Router\n	for {\n")],
  demo=T('''	r := NewRouter()
	got := ""
	mw := func(s string) func(*Context) { return func(c *Context) { got += s } }
	r.Use(mw("a"))
	g := r.Group("/g", mw("g"))
	g.GET("/x", func(c *Context) { c.Abort(200) })
	r.Use(mw("b"))
	serveDemo(r.Handler(), "GET", "/g/x")
	if got != "abg" {
		t.Fatal(got)
	}
''')),
 dict(id="abort-final", property="C02",
  needs="a handler that aborts and then resumes the chain by Next",
  breaks="the following handler is not started by Next",
  edits=[("content.go", "func (ctx *Context) Abort(code int) {\n	ctx.WriteHeader(code)\n}", "func (ctx *Context) Abort(code int) {\n	ctx.WriteHeader(code)\n	ctx.index = ctx.handlersLength // nothing more to run\n}")],
  demo=T('''	r := NewRouter()
	got := ""
	r.Use(func(c *Context) { c.Abort(202); c.Next() })
	r.GET("/x", func(c *Context) { got = "ran" })
	serveDemo(r.Handler(), "GET", "/x")
	if got != "ran" {
		t.Fatal(got)
	}
''')),
 dict(id="routes-cache", property="C03",
  needs="a router built twice with a route registered in between",
  breaks="the second engine lacks the later route",
  edits=[("router.go", "	parent *Router\n	sub    []*Router\n", "	parent *Router\n	sub    []*Router\n\n	built *routeStore // of the first build\n"),
         ("router.go", "	rs := newRouteStore()\n\n	dumpRoute(r, rs)\n", "	rs := r.built\n	if rs == nil {\n		rs = newRouteStore()\n\n		dumpRoute(r, rs)\n		if len(rs.routeSlice) > 0 {\n			r.built = rs\n		}\n	}\n")],
  demo=T('''	r := NewRouter()
	r.GET("/a", func(c *Context) { c.Abort(200) })
	r.Handler()
	r.GET("/b", func(c *Context) { c.Abort(200) })
	if w := serveDemo(r.Handler(), "GET", "/b"); w.Code != 200 {
		t.Fatal(w.Code)
	}
''')),
 dict(id="nofound-chain-shared", property="C03",
  needs="one router with global middleware built twice with different not-found handlers",
  breaks="the first engine's unmatched requests run the second one's handlers",
  edits=[("router.go", "	parent *Router\n	sub    []*Router\n", "	parent *Router\n	sub    []*Router\n\n	outer []Handler // gbefores as handlers\n"),
         ("router.go", "		hstmp := make([]Handler, len(r.gbefores))\n		copy(hstmp, newHandlers(r.gbefores))\n\n		hstmp = append(hstmp, o.NoFoundHandlers...)\n		o.NoFoundHandlers = hstmp\n",
          "		if len(r.outer) != len(r.gbefores) {\n			r.outer = append(make([]Handler, 0, len(r.gbefores)+4), newHandlers(r.gbefores)...)\n		}\n\n		o.NoFoundHandlers = append(r.outer, o.NoFoundHandlers...)\n")],
  demo=T('''	r := NewRouter()
	r.Before(func(c *Context) {})
	r.GET("/a", func(c *Context) { c.Abort(200) })
	e := r.Handler(WithNoFoundHandlers(func(c *Context) { c.Abort(410) }))
	r.Handler(WithNoFoundHandlers(func(c *Context) { c.Abort(418) }))
	if w := serveDemo(e, "GET", "/b"); w.Code != 410 {
		t.Fatal(w.Code)
	}
''')),
 dict(id="form-error-kept", property="I01",
  needs="a request whose form cannot be parsed, then another one on the same pooled context",
  breaks="the later request's form is refused because of the earlier one",
  edits=[("context.go", "	parsedParams bool\n", "	parsedParams, brokenForm bool\n"),
         ("content.go", "	if ctx.parsedParams {\n		return nil\n	}\n", "	if ctx.brokenForm {\n		return errors.New(\"parseForm error\")\n	}\n	if ctx.parsedParams {\n		return nil\n	}\n"),
         ("content.go", "		if err := ctx.Request.ParseForm(); err != nil {\n", "		if err := ctx.Request.ParseForm(); err != nil {\n			ctx.brokenForm = true\n")],
  demo=T('''	r := NewRouter()
	e := 0
	r.GET("/a", func(c *Context) {
		var o struct{ A string `form:"a"` }
		if c.BindWith(&o, binding.Form) != nil {
			e++
		}
		c.Abort(200)
	})
	en := r.Handler()
	serveDemo(en, "GET", "/a?a=%zz")
	for i := 0; i < 8; i++ {
		serveDemo(en, "GET", "/a?a=1")
	}
	if e != 1 {
		t.Fatal(e)
	}
''', BND)),
 dict(id="status-stale", property="I01",
  needs="a handler that asks for the status before the response is started, after another request",
  breaks="it sees the status of an earlier request",
  edits=[("context.go", "	ctx.written = false\n	ctx.status = 0\n", "	ctx.written = false\n")],
  demo=T('''	r := NewRouter()
	got := 0
	r.GET("/a", func(c *Context) { got += c.Status(); c.Abort(418) })
	e := r.Handler()
	for i := 0; i < 8; i++ {
		serveDemo(e, "GET", "/a")
	}
	if got != 0 {
		t.Fatal(got)
	}
''')),
 dict(id="double-put-404", property="I02", race=False,
  needs="unmatched requests, then two requests at the same time",
  breaks="two requests that run at the same time share one context",
  edits=[("engine.go", "	ctx := e.ctxPool.Get().(*Context)\n	ctx.reset()\n", "	ctx := e.ctxPool.Get().(*Context)\n	ctx.reset()\n	defer e.ctxPool.Put(ctx)\n"),
         ("engine.go", "	ctx.run()\n\n	e.ctxPool.Put(ctx)\n", "	ctx.run()\n")],
  demo=T('''	r := NewRouter()
	bad := ""
	var e *Engine
	r.GET("/in/<a>", func(c *Context) { c.Abort(200) })
	r.GET("/out/<a>", func(c *Context) {
		for i := 0; i < 4; i++ {
			serveDemo(e, "GET", "/in/2")
		}
		if c.Param("a") != "1" {
			bad = c.Param("a")
		}
		c.Abort(200)
	})
	e = r.Handler()
	for i := 0; i < 200; i++ {
		serveDemo(e, "GET", "/none")
		func() {
			defer func() {
				if x := recover(); x != nil {
					bad = "panic"
				}
			}()
			serveDemo(e, "GET", "/out/1")
		}()
	}
	if bad != "" {
		t.Fatal(bad)
	}
''')),
 dict(id="static-html-ext", property="M02",
  needs="a request for a name that is missing while the same name with .html exists",
  breaks="the other file is sent instead of 404",
  edits=[("m_static.go", "		f, err := opt.FileSystem.Open(ctx.Param(\"*0\"))\n", "		f, err := openPage(opt.FileSystem, ctx.Param(\"*0\"))\n"),
         ("m_static.go", "// Static serves files from the given file system root.\n// http.NotFound is used instead of the Router's NotFound handler.\n// can send", "func openPage(fs http.FileSystem, name string) (http.File, error) {\n	f, err := fs.Open(name)\n	if err != nil && path.Ext(name) == \"\" {\n		f, err = fs.Open(name + \".html\")\n	}\n	return f, err\n}\n\n// Static serves files from the given file system root.\n// http.NotFound is used instead of the Router's NotFound handler.\n// can send")],
  demo=T('''	d := t.TempDir()
	os.WriteFile(d+"/about.html", []byte("x"), 0644)
	r := NewRouter()
	r.Static("/s", d)
	if w := serveDemo(r.Handler(), "GET", "/s/about"); w.Code != 404 {
		t.Fatal(w.Code)
	}
''', "os")),
 dict(id="static-empty-204", property="M02",
  needs="an empty file",
  breaks="it is answered 204 instead of 200",
  edits=[("m_static.go", "		http.ServeContent(ctx, ctx.Request, ctx.Param(\"*0\"), fi.ModTime(), f)\n	}\n",
          "		if fi.Size() == 0 && ctx.Request.Header.Get(\"If-Modified-Since\") == \"\" {\n			ctx.WriteHeader(http.StatusNoContent)\n			return\n		}\n\n		http.ServeContent(ctx, ctx.Request, ctx.Param(\"*0\"), fi.ModTime(), f)\n	}\n")],
  demo=T('''	d := t.TempDir()
	os.WriteFile(d+"/e.txt", nil, 0644)
	r := NewRouter()
	r.Static("/s", d)
	if w := serveDemo(r.Handler(), "GET", "/s/e.txt"); w.Code != 200 {
		t.Fatal(w.Code)
	}
''', "os")),
 dict(id="param-float32", property="Q02",
  needs="a path parameter with more digits than a float32 holds",
  breaks="the value is rounded to 32 bits",
  edits=[("params.go", "	return strconv.ParseFloat(p.String(name), 64)\n", "	v, err := strconv.ParseFloat(p.String(name), 64)\n	if err == nil && v > -1e6 && v < 1e6 {\n		v = float64(float32(v))\n	}\n	return v, err\n")],
  demo=T('''	v, err := Params{"a": "1.123456789"}.Float64("a")
	if err != nil || v != 1.123456789 {
		t.Fatal(v, err)
	}
''')),
 dict(id="must-int-32", property="Q02",
  needs="a path parameter above 32 bits read by MustInt",
  breaks="the value is wrapped to 32 bits",
  edits=[("params.go", "func (p Params) MustInt(name string) int {\n	v, _ := p.Int(name)\n	return v\n}", "func (p Params) MustInt(name string) int {\n	v, _ := p.Int64(name)\n	return int(int32(v))\n}")],
  demo=T('''	if v := (Params{"a": "4294967301"}).MustInt("a"); v != 4294967301 {
		t.Fatal(v)
	}
''')),
 dict(id="recovery-known-values", property="S03",
  needs="a panic with a value that is neither an error nor a text",
  breaks="the panic escapes the recovery",
  edits=[("m_recovery.go", "				content := fmt.Sprintf(", "				switch err.(type) {\n				case nil, error, string, fmt.Stringer:\n				default:\n					panic(err) // not ours\n				}\n				content := fmt.Sprintf(")],
  demo=T('''	r := NewRouter()
	r.Use(Recovery())
	r.GET("/a", func(c *Context) { panic(7) })
	if w := serveDemo(r.Handler(), "GET", "/a"); w.Code != 500 {
		t.Fatal(w.Code)
	}
''')),
 dict(id="recovery-huge-trace", property="S03",
  needs="a panic below many nested handlers",
  breaks="the outer handlers do not get to finish: the recovery panics itself",
  edits=[("m_recovery.go", "				for skip := 1; ; skip += 1 {\n", "				var frames [64]uintptr\n				for skip := 1; ; skip += 1 {\n					frames[skip] = uintptr(skip)\n")],
  demo=T('''	r := NewRouter()
	r.Use(Recovery())
	for i := 0; i < 60; i++ {
		r.Use(func(c *Context) { c.Next() })
	}
	r.GET("/a", func(c *Context) { panic("x") })
	if w := serveDemo(r.Handler(), "GET", "/a"); w.Code != 500 {
		t.Fatal(w.Code)
	}
''')),
 dict(id="logger-preflight-silent", property="S04",
  needs="an OPTIONS request through the logger",
  breaks="no line is logged for it",
  edits=[("m_logger.go", "		if LogClose {\n			ctx.Next() ", "		if LogClose || ctx.Request.Method == http.MethodOptions {\n			ctx.Next() ")],
  demo=T('''	LogClose, LogColor = false, false
	file := t.TempDir() + "/log"
	f, _ := os.Create(file)
	old := os.Stdout
	os.Stdout = f
	l := logx.NewLogger()
	l.AddLogger("console", `{"color":false}`)
	os.Stdout = old
	logx.SetOutput(l)
	r := NewRouter()
	r.Use(Logger())
	r.OPTIONS("/a", func(c *Context) { c.Abort(204) })
	serveDemo(r.Handler(), "OPTIONS", "/a")
	if b, _ := os.ReadFile(file); len(b) == 0 {
		t.Fatal("no line")
	}
''', "os", "github.com/meilihao/logx")),
 dict(id="logger-percent", property="S04",
  needs="a request URL or JSON body that contains a percent sign",
  breaks="the line shows formatting errors instead of the URL",
  edits=[("m_logger.go", '''		logx.Infof("%s %v |%s| %13v | %16s | %7s %s%s",
''', '''		line := fmt.Sprintf("%s %v |%s| %13v | %16s | %7s %s%s",
'''), ("m_logger.go", "			body,\n		)\n", "			body,\n		)\n		logx.Infof(line)\n")],
  demo=T('''	LogClose, LogColor = false, false
	file := t.TempDir() + "/log"
	f, _ := os.Create(file)
	old := os.Stdout
	os.Stdout = f
	l := logx.NewLogger()
	l.AddLogger("console", `{"color":false}`)
	os.Stdout = old
	logx.SetOutput(l)
	r := NewRouter()
	r.Use(Logger())
	r.GET("/a", func(c *Context) { c.Abort(204) })
	serveDemo(r.Handler(), "GET", "/a?x=%20d")
	if b, _ := os.ReadFile(file); !strings.Contains(string(b), "/a?x=%20d") {
		t.Fatal(string(b))
	}
''', "os", "strings", "github.com/meilihao/logx")),
 dict(id="environ-int-widen", property="E01",
  needs="an int read through the 64 bit accessor",
  breaks="the value is converted instead of a panic",
  edits=[("environ.go", "func (m Environ) GetInt64(name string) int64 {\n	return m[name].(int64)\n", "func (m Environ) GetInt64(name string) int64 {\n	if v, ok := m[name].(int); ok {\n		return int64(v)\n	}\n	return m[name].(int64)\n")],
  demo=T('''	defer func() {
		if recover() == nil {
			t.Fatal("no panic")
		}
	}()
	m := Environ{}
	m.Set("a", 1)
	m.GetInt64("a")
''')),
 dict(id="environ-set-empty", property="E01",
  needs="a name set twice, the first time to an empty text",
  breaks="the second setting is accepted",
  edits=[("environ.go", "	if c.Environ.Has(name) {\n", "	if v, ok := c.Environ[name]; ok && v != \"\" {\n")],
  demo=T('''	defer func() {
		if recover() == nil {
			t.Fatal("no panic")
		}
	}()
	c := &Context{Environ: Environ{}}
	c.Set("a", "")
	c.Set("a", "b")
''')),
]
