# second batch; T and SEEDS come from seeds.py
STDOUT = '''	out := func(f func()) string {
		old := os.Stdout
		rd, wr, _ := os.Pipe()
		os.Stdout = wr
		f()
		os.Stdout = old
		wr.Close()
		b, _ := io.ReadAll(rd)
		return string(b)
	}
'''
SEEDS += [
 dict(id="literal-dead-end", property="R01",
  needs="a request that matches a literal segment whose subtree leads nowhere, while a catch-all beside it would answer",
  breaks="after a dead end below a literal segment the parameter and catch-all branches beside it are not tried",
  edits=[("tree.go", "				if end := n.subNodes[i].matchNextSegment(globLevel, uri, params); end != nil {\n					return end\n				}\n			}\n		case _PATTERN_REGEXP:",
                     "				if end := n.subNodes[i].matchNextSegment(globLevel, uri, params); end != nil {\n					return end\n				}\n				if len(n.subNodes) > 2 && n.subNodes[i].subNodes != nil {\n					return nil\n				}\n			}\n		case _PATTERN_REGEXP:")],
  demo=T('''	r := NewRouter()
	h := func(c *Context) { c.String(200, c.FullPath()) }
	r.GET("/a/b/c", h)
	r.GET("/x/y", h)
	r.GET("/:p/q", h)
	if g := serveDemo(r.Handler(), "GET", "/a/q").Body.String(); g != "/:p/q" {
		t.Fatal(g)
	}
''')),
 dict(id="sub-same-name", property="R01",
  needs="a plain parameter and a regular-expression segment of the same name in the same place, both followed by more segments",
  breaks="the two share one branch of the tree, so the later one answers wherever the first matches",
  edits=[("tree.go", "		if n.subNodes[i].pattern == segment {\n			return", "		if n.subNodes[i].pattern == segment || n.subNodes[i].typ == _PATTERN_REGEXP && getparsedPattern(segment) == n.subNodes[i].parsedPattern && segment[0] == '<' {\n			return")],
  demo=T('''	r := NewRouter()
	h := func(c *Context) { c.String(200, c.FullPath()) }
	r.GET("/<id ~ ^[0-9]+$>/b", h)
	r.GET("/<id>/c", h)
	if g := serveDemo(r.Handler(), "GET", "/x/c").Body.String(); g != "/<id>/c" {
		t.Fatal(g)
	}
''')),
 dict(id="trim-many", property="R01",
  needs="a request path that begins or ends with two slashes",
  breaks="all leading and trailing slashes are ignored, not one",
  edits=[("tree.go", '	uri = strings.TrimPrefix(uri, "/")\n	uri = strings.TrimSuffix(uri, "/")\n	params', '	uri = strings.Trim(uri, "/")\n	params')],
  demo=T('''	r := NewRouter()
	r.GET("/a", func(c *Context) { c.String(200, "x") })
	q := httptest.NewRequest("GET", "/a", nil)
	q.URL.Path = "/a//"
	w := httptest.NewRecorder()
	r.Handler().ServeHTTP(w, q)
	if w.Code != 404 {
		t.Fatal(w.Code)
	}
''')),
 dict(id="end-glob-level", property="R02",
  needs="an unnamed catch-all in mid pattern followed by an unnamed one at the end that takes several segments",
  breaks="the last catch-all is captured under the wrong number",
  edits=[("tree.go", '				params["*"+strconv.Itoa(globLevel)] = segment + "/" + uri', '				params["*"+strconv.Itoa(len(params))] = segment + "/" + uri')],
  demo=T('''	r := NewRouter()
	r.GET("/*/x/*", func(c *Context) { c.String(200, c.Param("*0")+"|"+c.Param("*1")) })
	if g := serveDemo(r.Handler(), "GET", "/a/x/b/c"); g.Body.String() != "a|b/c" {
		t.Fatal(g.Body.String())
	}
''')),
 dict(id="any-exclude-break", property="R03",
  needs="an exclusion list that names a method which is not the last ones",
  breaks="registering for any method stops at the first excluded one instead of skipping it",
  edits=[("router.go", "				continue Skip\n", "				break Skip\n")],
  demo=T('''	old := MethodAnyExclude
	MethodAnyExclude = []string{"POST"}
	defer func() { MethodAnyExclude = old }()
	r := NewRouter()
	r.ANY("/a", func(c *Context) { c.String(200, "x") })
	if g := serveDemo(r.Handler(), "PUT", "/a"); g.Code != 200 {
		t.Fatal(g.Code)
	}
''')),
 dict(id="static-head-get", property="R04",
  needs="a HEAD request for the path of a static GET route, static table on",
  breaks="the static table of GET answers HEAD requests too",
  edits=[("engine.go", "		ctx.endNode = e.routersStatic[index][req.URL.Path]\n", "		ctx.endNode = e.routersStatic[index][req.URL.Path]\n		if ctx.endNode == nil && req.Method == http.MethodHead {\n			ctx.endNode = e.routersStatic[0][req.URL.Path]\n		}\n")],
  demo=T('''	r := NewRouter()
	r.GET("/a", func(c *Context) { c.String(200, "x") })
	if g := serveDemo(r.Handler(WithStaticRouter(true)), "HEAD", "/a"); g.Code != 404 {
		t.Fatal(g.Code)
	}
''')),
 dict(id="nofound-405", property="R05",
  needs="an unmatched request whose path is registered for another method",
  breaks="it gets a bare 405, the not-found handlers do not run",
  edits=[("engine.go", "		if len(e.options.NoFoundHandlers) != 0 {\n", "		if other, _ := e.routers[0].Match(req.URL.Path); other != nil && other.typ == _PATTERN_STATIC && req.Method == http.MethodPost {\n			ctx.WriteHeader(http.StatusMethodNotAllowed)\n			e.ctxPool.Put(ctx)\n			return\n		}\n		if len(e.options.NoFoundHandlers) != 0 {\n")],
  demo=T('''	r := NewRouter()
	r.GET("/a", func(c *Context) { c.String(200, "x") })
	if g := serveDemo(r.Handler(WithNoFoundHandlers(func(c *Context) { c.String(404, "nf") })), "POST", "/a"); g.Body.String() != "nf" {
		t.Fatal(g.Code, g.Body)
	}
''')),
 dict(id="nofound-head-bare", property="R05",
  needs="a HEAD request no route matches, with not-found handlers",
  breaks="HEAD requests get a bare 404 without the not-found handlers",
  edits=[("engine.go", "		if len(e.options.NoFoundHandlers) != 0 {\n", "		if len(e.options.NoFoundHandlers) != 0 && (req.Method != http.MethodHead || e.routers[index] != nil) {\n")],
  demo=T('''	r := NewRouter()
	r.GET("/a", func(c *Context) { c.String(200, "x") })
	ran := false
	serveDemo(r.Handler(WithNoFoundHandlers(func(c *Context) { ran = true })), "HEAD", "/b")
	if !ran {
		t.Fatal("not run")
	}
''')),
 dict(id="double-same-chain", property="R06",
  needs="the same method and pattern registered twice, the second time with as many handlers",
  breaks="the second registration is dropped silently when it looks the same",
  edits=[("router.go", "	if rs.routeMap[r.method][r.uri] != nil {\n", "	if old := rs.routeMap[r.method][r.uri]; old != nil {\n		if len(old.handlers) > 1 && len(old.handlers) == len(r.handlers) {\n			return\n		}\n")],
  demo=T('''	defer func() {
		if recover() == nil {
			t.Fatal("accepted")
		}
	}()
	r := NewRouter()
	h := func(c *Context) {}
	r.GET("/a", h, h)
	r.GET("/a", h, h)
	r.Handler()
''')),
 dict(id="group-staticfile", property="R06",
  needs="a single static file registered on a group",
  breaks="a root-only operation is accepted on a group",
  edits=[("m_static.go", '	if r.parent != nil {\n		panic("sub router not allowed : Static()")\n	}\n', '	if r.parent != nil && r.parent.parent == nil && r.pattern == "" {\n		panic("sub router not allowed : Static()")\n	}\n')],
  demo=T('''	defer func() {
		if recover() == nil {
			t.Fatal("accepted")
		}
	}()
	r := NewRouter()
	r.Group("/g").StaticFile("/f", "/nonexistent")
	r.Handler()
''')),
 dict(id="route-kept-on-leaf", property="C03",
  needs="a router built, then given more middleware, then built again",
  breaks="the second build reuses the chains of the first",
  edits=[("router.go", "	parent *Router\n	sub    []*Router\n}\n", "	parent *Router\n	sub    []*Router\n	route  *route\n}\n"),
         ("router.go", "func getRoute(r *Router) *route {\n", "func getRoute(r *Router) *route {\n	if r.route != nil {\n		return r.route\n	}\n"),
         ("router.go", '		panic(fmt.Sprintf("handler err : empty handlers in route(%s,%s)", re.method, re.uri))\n	}\n', '		panic(fmt.Sprintf("handler err : empty handlers in route(%s,%s)", re.method, re.uri))\n	}\n	r.route = re\n')],
  demo=T('''	r := NewRouter()
	r.GET("/a", func(c *Context) { c.String(200, "x") })
	r.Handler()
	ran := false
	r.Use(func(c *Context) { ran = true })
	serveDemo(r.Handler(), "GET", "/a")
	if !ran {
		t.Fatal("middleware lost")
	}
''')),
 dict(id="recovery-shared-content", property="I02",
  needs="two requests that panic at the same time behind one Recovery",
  breaks="they build their report in one shared variable",
  race=True,
  edits=[("m_recovery.go", "func Recovery() HandlerFunc {\n	return func", "func Recovery() HandlerFunc {\n	content := \"\"\n	return func"),
         ("m_recovery.go", 'content := fmt.Sprintf(', 'content = fmt.Sprintf(')],
  demo=T('''	r := NewRouter()
	r.Use(Recovery())
	r.GET("/a", func(c *Context) { panic(1) })
	e := r.Handler()
	var wg sync.WaitGroup
	for i := 0; i < 20; i++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			serveDemo(e, "GET", "/a")
		}()
	}
	wg.Wait()
''', "sync")),
 dict(id="environ-recycled", property="E01",
  needs="a handler that keeps the environment of its request (for work after the response), then a later request on the recycled context",
  breaks="the environment map is emptied and given to the next request",
  edits=[("engine.go", "	ctx.Environ = make(Environ)\n", "	if ctx.Environ == nil {\n		ctx.Environ = make(Environ)\n	}\n	for k := range ctx.Environ {\n		delete(ctx.Environ, k)\n	}\n")],
  demo=T('''	r := NewRouter()
	var kept Environ
	r.GET("/a", func(c *Context) { c.Set("user", "alice"); kept = c.Environ; c.String(200, "x") })
	r.GET("/b", func(c *Context) { c.String(200, "x") })
	e := r.Handler()
	for i := 0; i < 20; i++ {
		serveDemo(e, "GET", "/a")
		mine := kept
		serveDemo(e, "GET", "/b")
		if !mine.Has("user") {
			t.Fatal("emptied by another request")
		}
	}
''')),
 dict(id="cors-null-never", property="M01",
  needs="the origin 'null', configured",
  breaks="it is never granted although it is configured",
  edits=[("m_cors.go", '			if o == "*" || o == origin {', '			if o == "*" || o == origin && o != "null" {')],
  demo=T('''	r := NewRouter()
	r.Use(CORS(CORSConfig{AllowOrigins: []string{"null"}}))
	r.GET("/", func(c *Context) { c.String(200, "x") })
	if g := serveDemo(r.Handler(), "GET", "/", "Origin", "null").Header().Get("Access-Control-Allow-Origin"); g != "null" {
		t.Fatal(g)
	}
''')),
 dict(id="cors-vary-set", property="M01",
  needs="an earlier handler that put something in Vary",
  breaks="the request-header names are dropped from Vary, or what was there before is",
  edits=[("m_cors.go", "		res.Header().Add(HeaderVary, HeaderAccessControlRequestMethod)\n", "		if req.Header.Get(HeaderAccessControlRequestMethod) != \"\" {\n			res.Header().Add(HeaderVary, HeaderAccessControlRequestMethod)\n		}\n")],
  demo=T('''	r := NewRouter()
	r.Use(CORS(CORSConfig{}))
	r.OPTIONS("/", func(c *Context) { c.String(200, "x") })
	if g := serveDemo(r.Handler(), "OPTIONS", "/", "Origin", "http://a").Header()["Vary"]; len(g) != 3 {
		t.Fatal(g)
	}
''')),
 dict(id="etag-contains", property="M03",
  needs="an If-None-Match that is another tag which contains the current one",
  breaks="304 for a tag that is not the current one",
  edits=[("m_static.go", '			if ctx.Request.Header.Get("If-None-Match") == tag {', '			if strings.Contains(ctx.Request.Header.Get("If-None-Match"), tag) {')],
  demo=T('''	d := t.TempDir()
	os.WriteFile(d+"/f", []byte("x"), 0600)
	r := NewRouter()
	r.StaticAdvance(&StaticOptions{Prefix: "/s", FileSystem: http.Dir(d), ETag: ETagType1})
	e := r.Handler()
	tag := serveDemo(e, "GET", "/s/f").Header().Get("ETag")
	if g := serveDemo(e, "GET", "/s/f", "If-None-Match", tag+"0"); g.Code != 200 {
		t.Fatal(g.Code)
	}
''', "os")),
 dict(id="etag-size-32", property="M03",
  needs="files whose sizes differ by a multiple of 4 GB",
  breaks="they get the same tag",
  edits=[("util.go", 'return fmt.Sprintf("%x-%x", lastModified.Unix(), size)', 'return fmt.Sprintf("%x-%x", lastModified.Unix(), uint32(size))')],
  demo=T('''	d := t.TempDir()
	now := time.Now()
	for i, n := range []string{"a", "b"} {
		os.WriteFile(d+"/"+n, []byte("x"), 0600)
		if err := os.Truncate(d+"/"+n, int64(i)<<32+7); err != nil {
			t.Skip(err)
		}
		os.Chtimes(d+"/"+n, now, now)
	}
	r := NewRouter()
	r.StaticAdvance(&StaticOptions{Prefix: "/s", FileSystem: http.Dir(d), ETag: ETagType1})
	e := r.Handler()
	if serveDemo(e, "HEAD", "/s/a").Header().Get("ETag") == serveDemo(e, "HEAD", "/s/b").Header().Get("ETag") {
		t.Fatal("same tag")
	}
''', "os", "time")),
 dict(id="querymap-last-bracket", property="Q01",
  needs="a bracketed key whose name contains a closing bracket more",
  breaks="the key is cut at the last bracket",
  edits=[("query.go", "				dicts[k[i+1:][:j]] = strings.TrimSpace(v[0])\n			}\n		}\n	}\n\n	return dicts\n}\n\n// DefaultQuery returns", "				dicts[k[i+1:][:strings.LastIndexByte(k[i+1:], ']')]] = strings.TrimSpace(v[0])\n			}\n		}\n	}\n\n	return dicts\n}\n\n// DefaultQuery returns")],
  demo=T('''	r := NewRouter()
	var m map[string]string
	r.GET("/a", func(c *Context) { m = c.QueryMap("m"); c.String(200, "x") })
	serveDemo(r.Handler(), "GET", "/a?m[a][b]=1")
	if m["a"] != "1" {
		t.Fatal(m)
	}
''')),
 dict(id="query-trim-blank", property="Q01",
  needs="a value surrounded by tabs, newlines or other white space than blanks, read as a list",
  breaks="only blanks are removed",
  edits=[("query.go", '''	vs := ctx.Request.Form[name]

	tmp := make([]string, len(vs))
	for i := range vs {
		tmp[i] = strings.TrimSpace(vs[i])''', '''	vs := ctx.Request.Form[name]

	tmp := make([]string, len(vs))
	for i := range vs {
		tmp[i] = strings.Trim(vs[i], " ")''')],
  demo=T('''	r := NewRouter()
	var l []string
	r.GET("/a", func(c *Context) { l = c.QueryArray("q"); c.String(200, "x") })
	serveDemo(r.Handler(), "GET", "/a?q=%09x%0a")
	if len(l) != 1 || l[0] != "x" {
		t.Fatalf("%q", l)
	}
''')),
 dict(id="cookie-httponly-nested", property="Q03",
  needs="a cookie that is http-only but not secure",
  breaks="the http-only attribute is lost",
  edits=[("cookie.go", "		if v, ok := others[4].(bool); ok && v {", "		if v, ok := others[4].(bool); ok && v && (cookie.Secure || len(others) == 5) {")],
  demo=T('''	r := NewRouter()
	r.GET("/a", func(c *Context) { c.SetCookie("a", "b", 0, "", "", false, true, http.SameSiteLaxMode); c.String(200, "x") })
	if g := serveDemo(r.Handler(), "GET", "/a").Header().Get("Set-Cookie"); g != "a=b; Path=/; HttpOnly; SameSite=Lax" {
		t.Fatal(g)
	}
''')),
 dict(id="proxy-skip-empty", property="Q04",
  needs="an X-Forwarded-For with an empty entry in the middle",
  breaks="the empty entry is dropped from the proxy list",
  edits=[("content.go", "	return requestProxy(ctx.Request)\n", "	ls := requestProxy(ctx.Request)\n	for i := 1; i < len(ls)-1; i++ {\n		if ls[i] == \"\" {\n			return append(ls[:i], ls[i+1:]...)\n		}\n	}\n	return ls\n")],
  demo=T('''	r := NewRouter()
	var l []string
	r.GET("/a", func(c *Context) { l = c.Proxy(); c.String(200, "x") })
	serveDemo(r.Handler(), "GET", "/a", "X-Forwarded-For", "1.1.1.1,,2.2.2.2")
	if len(l) != 3 {
		t.Fatalf("%q", l)
	}
''')),
 dict(id="bind-json-prefix", property="B01",
  needs="a content type that begins with application/json but is another one",
  breaks="it is decoded as JSON",
  edits=[("binding/binding.go", "	case MIMEPOSTForm:\n		return Form\n", "	case MIMEJSON + \"-seq\", MIMEJSON + \"p\", MIMEJSON + \"l\":\n		return JSON\n	case MIMEPOSTForm:\n		return Form\n")],
  demo=T('''	r := NewRouter()
	var o struct {
		A string `json:"a" form:"a"`
	}
	r.POST("/a", func(c *Context) { c.Bind(&o); c.String(200, "x") })
	q := httptest.NewRequest("POST", "/a?a=q", strings.NewReader(`{"a":"b"}`))
	q.Header.Set("Content-Type", "application/json-seq")
	r.Handler().ServeHTTP(httptest.NewRecorder(), q)
	if o.A != "q" {
		t.Fatal(o)
	}
''', "strings")),
 dict(id="default-on-blank", property="B02",
  needs="a numeric field with a default, sent with an empty value",
  breaks="the default is stored instead of zero",
  edits=[("binding/map_form.go", '	case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:\n		if val == "" {\n			val = "0"\n		}\n', '	case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:\n		if val == "" {\n			val = opt.defaultValue\n		}\n		if val == "" {\n			val = "0"\n		}\n')],
  demo=T('''	var o struct {
		N int `form:"n,default=7"`
	}
	if err := binding.MapForm(&o, map[string][]string{"n": {""}}, nil, "form"); err != nil || o.N != 0 {
		t.Fatal(err, o)
	}
''', "github.com/meilihao/water/binding")),
 dict(id="list-appends", property="B02",
  needs="a list field that already holds elements",
  breaks="the request's values are appended to them",
  edits=[("binding/map_form.go", "			slice := reflect.MakeSlice(value.Type(), num, num)\n			for i := 0; i < num; i++ {\n				if err = setWithProperType2(typeField, bOpt, sliceOf, inputValue[i], slice.Index(i), bName); err != nil {\n					return err\n				}\n			}\n			value.Set(slice)\n",
                                   "			slice := reflect.MakeSlice(value.Type(), num, num)\n			for i := 0; i < num; i++ {\n				if err = setWithProperType2(typeField, bOpt, sliceOf, inputValue[i], slice.Index(i), bName); err != nil {\n					return err\n				}\n			}\n			value.Set(reflect.AppendSlice(value, slice))\n")],
  demo=T('''	o := struct {
		N []int `form:"n"`
	}{[]int{9}}
	if err := binding.MapForm(&o, map[string][]string{"n": {"1"}}, nil, "form"); err != nil || len(o.N) != 1 {
		t.Fatal(err, o)
	}
''', "github.com/meilihao/water/binding")),
 dict(id="float32-wide", property="B02",
  needs="a value beyond the range of a 32-bit float",
  breaks="it is stored as infinity",
  edits=[("binding/map_form.go", "		floatVal, err := strconv.ParseFloat(val, 32)\n", "		floatVal, err := strconv.ParseFloat(val, 64)\n")],
  demo=T('''	var o struct {
		N float32 `form:"n"`
	}
	if err := binding.MapForm(&o, map[string][]string{"n": {"1e300"}}, nil, "form"); err == nil {
		t.Fatal(o)
	}
''', "github.com/meilihao/water/binding")),
 dict(id="validate-array-skip", property="B03",
  needs="an array (not a slice) of objects bound from JSON",
  breaks="its elements are not validated",
  edits=[("binding/validator.go", "	case reflect.Slice, reflect.Array:", "	case reflect.Slice:")],
  demo=T('''	type el struct {
		N int `json:"n" binding:"required"`
	}
	l := [2]el{{1}, {0}}
	if binding.Validator.ValidateStruct(&l) == nil {
		t.Fatal("accepted")
	}
''', "github.com/meilihao/water/binding")),
 dict(id="header-unvalidated", property="B03",
  needs="a struct bound from headers that violates a rule of a field whose header is absent",
  breaks="the rules are not checked",
  edits=[("binding/header.go", '	if err := MapForm(obj, req.Header, nil, "header"); err != nil {\n		return err\n	}\n\n	return validate(obj)', '	if err := MapForm(obj, req.Header, nil, "header"); err != nil {\n		return err\n	}\n	if len(req.Header) == 0 {\n		return nil\n	}\n\n	return validate(obj)')],
  demo=T('''	var o struct {
		N int `header:"n" binding:"required"`
	}
	q := httptest.NewRequest("GET", "/", nil)
	if binding.Header.Bind(q, &o) == nil {
		t.Fatal("accepted")
	}
''', "github.com/meilihao/water/binding")),
 dict(id="save-no-trunc", property="B04",
  needs="saving an upload over a longer file",
  breaks="the tail of the old file stays",
  edits=[("content.go", "os.O_WRONLY|os.O_CREATE|os.O_TRUNC", "os.O_WRONLY|os.O_CREATE")],
  demo=T('''	p := t.TempDir() + "/out"
	os.WriteFile(p, []byte("0123456789"), 0600)
	r := NewRouter()
	r.POST("/a", func(c *Context) {
		c.ParseFormOrMultipartForm()
		c.SaveUploadedFile(c.Request.MultipartForm.File["f"][0], p)
		c.String(200, "x")
	})
	var b bytes.Buffer
	m := multipart.NewWriter(&b)
	w, _ := m.CreateFormFile("f", "a.txt")
	w.Write([]byte("abc"))
	m.Close()
	q := httptest.NewRequest("POST", "/a", &b)
	q.Header.Set("Content-Type", m.FormDataContentType())
	r.Handler().ServeHTTP(httptest.NewRecorder(), q)
	if g, _ := os.ReadFile(p); string(g) != "abc" {
		t.Fatalf("%q", g)
	}
''', "bytes", "mime/multipart", "os")),
 dict(id="files-missing-ok", property="B04",
  needs="a file sent under the name of a text field that has no text",
  breaks="it is ignored without an error",
  edits=[("binding/map_form.go", '	return fmt.Errorf("%s can\'t mapping to multipart.FileHeader", bName)', '	if value.Kind() == reflect.String {\n		return nil\n	}\n	return fmt.Errorf("%s can\'t mapping to multipart.FileHeader", bName)')],
  demo=T('''	var o struct {
		N string `form:"n"`
	}
	if binding.MapForm(&o, nil, map[string][]*multipart.FileHeader{"n": {{}}}, "form") == nil {
		t.Fatal("accepted")
	}
''', "mime/multipart", "github.com/meilihao/water/binding")),
 dict(id="download-dir-labelled", property="D01",
  needs="a download of a directory, after which the handler answers otherwise",
  breaks="the response carries the download's headers",
  edits=[("content.go", '	if fi.IsDir() {\n		return errors.New("This is Dir.")\n	}\n', ''),
         ("content.go", '	ctx.Header().Set("Pragma", "public")\n', '	ctx.Header().Set("Pragma", "public")\n	if fi.IsDir() {\n		return errors.New("This is Dir.")\n	}\n')],
  demo=T('''	d := t.TempDir()
	r := NewRouter()
	r.GET("/a", func(c *Context) {
		if c.Download(d) != nil {
			c.String(404, "x")
		}
	})
	if g := serveDemo(r.Handler(), "GET", "/a"); g.Header().Get("Expires") != "" {
		t.Fatal(g.Header())
	}
''')),
 dict(id="attachment-octets", property="D01",
  needs="an attachment of a reader under a name without a known extension",
  breaks="its disposition is attachment even when inline was asked for",
  edits=[("content.go", "	ctx.Header().Set(HeaderContentDisposition, contentDisposition(name, dispositionType))\n", "	if !strings.Contains(name, \".\") {\n		dispositionType = \"attachment\"\n	}\n	ctx.Header().Set(HeaderContentDisposition, contentDisposition(name, dispositionType))\n")],
  demo=T('''	r := NewRouter()
	r.GET("/a", func(c *Context) { c.Attachment("n", time.Time{}, strings.NewReader("x"), true) })
	if g := serveDemo(r.Handler(), "GET", "/a"); g.Header().Get("Content-Disposition")[:6] != "inline" {
		t.Fatal(g.Header())
	}
''', "strings", "time")),
 dict(id="tree-root-count", property="P01",
  needs="a tree listing of a method that has '/' and other routes, '/' not registered first",
  breaks="the root route is left out",
  edits=[("router_print.go", '		if v.pattern == "" { // is "/"\n			fmt.Printf("%s [%3d]\\n", "/", len(v.handlers))\n		}', '		if v.pattern == "" && (v == root.endNodes[0] || len(root.endNodes) == 1) { // is "/"\n			fmt.Printf("%s [%3d]\\n", "/", len(v.handlers))\n		}')],
  demo=T(STDOUT + '''	r := NewRouter()
	h := func(c *Context) {}
	r.GET("/a", h)
	r.GET("/", h)
	e := r.Handler()
	if g := out(func() { e.PrintRouterTree("GET") }); !strings.Contains(g, "/ [  1]") {
		t.Fatal(g)
	}
''', "io", "os", "strings")),
 dict(id="tree-trunk-lost", property="P01",
  needs="a tree with nested branches under a last branch",
  breaks="routes of a nested last branch are printed at the wrong depth",
  edits=[("router_print.go", "				printTreeNode(node.subNodes[i], prefix+_PREFIX_EMP)", "				printTreeNode(node.subNodes[i], prefix)")],
  demo=T(STDOUT + '''	r := NewRouter()
	h := func(c *Context) {}
	r.GET("/a/b/c", h)
	e := r.Handler()
	if g := strings.Split(out(func() { e.PrintRouterTree("GET") }), "\\n"); len([]rune(g[2])) != len([]rune(g[1]))+4+6 {
		t.Fatalf("%q", g)
	}
''', "io", "os", "strings")),
 dict(id="logger-form-body", property="S04",
  needs="a JSON request body whose reading fails or is sent in pieces",
  breaks="a body of unknown length is not given back to the handlers",
  edits=[("m_logger.go", '			body = "\\n" + string(requestbody)\n', '			body = "\\n" + string(requestbody)\n			if ctx.Request.ContentLength < 0 {\n				ctx.Request.Body = ioutil.NopCloser(strings.NewReader(""))\n			}\n')],
  demo=T('''	LogClose = false
	defer func() { LogClose = true }()
	r := NewRouter()
	r.Use(Logger())
	got := ""
	r.POST("/a", func(c *Context) { got, _ = c.BodyString(); c.String(200, "x") })
	q := httptest.NewRequest("POST", "/a", io.MultiReader(strings.NewReader("{}")))
	q.Header.Set("Content-Type", "application/json")
	r.Handler().ServeHTTP(httptest.NewRecorder(), q)
	if got != "{}" {
		t.Fatal(got)
	}
''', "io", "strings")),
 dict(id="abort-reason-204", property="S02",
  needs="raw bytes sent with a status that allows no body followed by reading the status",
  breaks="an empty content type asked for is replaced",
  edits=[("content.go", "func (ctx *Context) Data(code int, contentType string, data []byte) {\n", "func (ctx *Context) Data(code int, contentType string, data []byte) {\n	if len(data) == 0 {\n		contentType = MIMETextPlain\n	}\n")],
  demo=T('''	r := NewRouter()
	r.GET("/a", func(c *Context) { c.Data(200, "image/png", nil) })
	if g := serveDemo(r.Handler(), "GET", "/a").Header().Get("Content-Type"); g != "image/png" {
		t.Fatal(g)
	}
''')),
 dict(id="stable-prefix", property="S03",
  needs="the mode 'stable' and a panic",
  breaks="the panic text is sent in stable mode when the value is an error",
  edits=[("m_recovery.go", "				if Status != Stable {", "				if _, isErr := err.(runtime.Error); Status != Stable || isErr {")],
  demo=T('''	Status = Stable
	defer func() { Status = Dev }()
	r := NewRouter()
	r.Use(Recovery())
	r.GET("/a", func(c *Context) { var m map[string]int; m["a"] = 1 })
	if g := serveDemo(r.Handler(), "GET", "/a").Body.String(); g != "" {
		t.Fatal(g)
	}
''')),
 dict(id="static-dot-hidden", property="M02",
  needs="a file or folder whose name begins with a dot",
  breaks="it is answered 404 although it is in the tree",
  edits=[("m_static.go", '		f, err := opt.FileSystem.Open(ctx.Param("*0"))\n		if err != nil {', '		f, err := opt.FileSystem.Open(ctx.Param("*0"))\n		if err != nil || strings.HasPrefix(path.Base(ctx.Param("*0")), ".") && path.Base(ctx.Param("*0")) != "." {')],
  demo=T('''	d := t.TempDir()
	os.WriteFile(d+"/.f", []byte("hi"), 0600)
	r := NewRouter()
	r.Static("/s", d)
	if g := serveDemo(r.Handler(), "GET", "/s/.f"); g.Body.String() != "hi" {
		t.Fatal(g.Code, g.Body)
	}
''', "os")),
]
