SEEDS += [
 dict(id="route-moves-up", property="I01",
  needs="two regular expressions at one place that match the same text, and a request only the second matches before one that both match",
  breaks="the second answers from then on, as the last one found is tried first",
  edits=[("tree.go", "				params[n.endNodes[i].wildcards[j]] = results[j+1]\n			}\n			return n.endNodes[i]", "				params[n.endNodes[i].wildcards[j]] = results[j+1]\n			}\n			if i > 0 && n.endNodes[i-1].typ == _PATTERN_REGEXP { // likely next time too\n				n.endNodes[i-1], n.endNodes[i] = n.endNodes[i], n.endNodes[i-1]\n				i--\n			}\n			return n.endNodes[i]")],
  demo=T('''	r := NewRouter()
	got := ""
	h := func(c *Context) { got = c.FullPath() }
	r.GET("/<a ~ ^([0-9]+)$>", h)
	r.GET("/<b ~ ([a-z0-9]+)>", h)
	e := r.Handler()
	serveDemo(e, "GET", "/7")
	first := got
	serveDemo(e, "GET", "/x")
	serveDemo(e, "GET", "/7")
	if got != first {
		t.Fatal(first, got)
	}
''')),
 dict(id="static-table-learns", property="I02", race=True,
  needs="the static-route option and concurrent requests for a static route written with a trailing slash",
  breaks="the table of static routes is written while it is read",
  edits=[("engine.go", "		ctx.endNode, ctx.Params = e.routers[index].Match(req.URL.Path)", "		ctx.endNode, ctx.Params = e.routers[index].Match(req.URL.Path)\n		if e.options.EnableStaticRouter && ctx.endNode != nil && len(ctx.Params) == 0 && e.routersStatic[index] != nil {\n			e.routersStatic[index][req.URL.Path] = ctx.endNode\n		}")],
  demo=T('''	r := NewRouter()
	r.GET("/a", func(c *Context) { c.Abort(200) })
	e := r.Handler(WithStaticRouter(true))
	var wg sync.WaitGroup
	for i := 0; i < 4; i++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			for j := 0; j < 50; j++ {
				serveDemo(e, "GET", "/a/")
			}
		}()
	}
	wg.Wait()
''', "sync")),
 dict(id="parsed-before", property="Q01",
  needs="a multipart form, and a middleware that called ParseForm of the request itself",
  breaks="the values of the body are missing",
  edits=[("content.go", "	if ctx.parsedParams {\n", "	if ctx.parsedParams || ctx.Request.Form != nil {\n")],
  demo=T('''	r := NewRouter()
	got := ""
	r.Use(func(c *Context) { c.Request.ParseForm() })
	r.POST("/", func(c *Context) { got = c.Query("a") })
	q := httptest.NewRequest("POST", "/", strings.NewReader("--B\\r\\nContent-Disposition: form-data; name=\\"a\\"\\r\\n\\r\\nv\\r\\n--B--\\r\\n"))
	q.Header.Set("Content-Type", "multipart/form-data; boundary=B")
	r.Handler().ServeHTTP(httptest.NewRecorder(), q)
	if got != "v" {
		t.Fatal(got)
	}
''', "strings")),
 dict(id="env-bytes-as-text", property="E01",
  needs="a byte slice in the environment, read with the accessor for strings",
  breaks="it is converted, where the accessor of another type must panic",
  edits=[("environ.go", "	return m[name].(string)", "	if v, ok := m[name].([]byte); ok {\n		return string(v)\n	}\n	return m[name].(string)")],
  demo=T('''	e := Environ{"a": []byte("x")}
	defer func() {
		if recover() == nil {
			t.Fatal("converted")
		}
	}()
	e.GetString("a")
''')),
 dict(id="etag-weak-match", property="M03",
  needs="a request with the current entity tag marked as weak",
  breaks="it gets 304, though it is not exactly the current tag",
  edits=[("m_static.go", 'if ctx.Request.Header.Get("If-None-Match") == tag {', 'if strings.TrimPrefix(ctx.Request.Header.Get("If-None-Match"), "W/") == tag {')],
  demo=T('''	d := t.TempDir()
	os.WriteFile(d+"/f", []byte("x"), 0644)
	r := NewRouter()
	r.StaticAdvance(&StaticOptions{Prefix: "/s", FileSystem: http.Dir(d), ETag: ETagType1})
	e := r.Handler()
	tag := serveDemo(e, "GET", "/s/f").Header().Get("ETag")
	if c := serveDemo(e, "GET", "/s/f", "If-None-Match", "W/"+tag).Code; tag == "" || c != 200 {
		t.Fatal(tag, c)
	}
''', "os")),
 dict(id="bind2-any-base", property="B05",
  needs="a whole number written with a leading zero or 0x",
  breaks="it is read in base 8 or 16 instead of as decimal or malformed",
  edits=[("binding/mapping.go", "strconv.ParseInt(val, 10, bitSize)", "strconv.ParseInt(val, 0, bitSize)")],
  demo=T('''	var o struct {
		N int `form:"n"`
	}
	if err := binding.Form.Bind2(httptest.NewRequest("GET", "/?n=010", nil), &o); err != nil || o.N != 10 {
		t.Fatal(o, err)
	}
''', "github.com/meilihao/water/binding")),
]
