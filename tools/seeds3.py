# third batch; T and SEEDS come from seeds.py, STDOUT from seeds2.py
BND = "github.com/meilihao/water/binding"
SEEDS += [
 # --- Q05
 dict(id="body-pooled-buffer", property="Q05",
  needs="two requests whose bodies are read whole, the first handler keeping the bytes",
  breaks="the bytes handed out for one request are overwritten by a later request's body",
  edits=[("content.go", "	data, err := ioutil.ReadAll(ctx.Request.Body)\n	if err != nil {\n		return nil, err\n	}\n",
          "	buf := bodyPool.Get().(*bytes.Buffer)\n	defer bodyPool.Put(buf)\n	buf.Reset()\n	_, err := buf.ReadFrom(ctx.Request.Body)\n	if err != nil {\n		return nil, err\n	}\n	data := buf.Bytes()\n"),
         ("content.go", '	"encoding/xml"\n', '	"bytes"\n	"encoding/xml"\n'),
         ("content.go", '	"io/ioutil"\n', ''),
         ("content.go", '	"strings"\n	"time"\n', '	"strings"\n	"sync"\n	"time"\n'),
         ("content.go", "type H map[string]interface{}\n", "type H map[string]interface{}\n\nvar bodyPool = sync.Pool{New: func() interface{} { return new(bytes.Buffer) }}\n")],
  demo=T('''	r := NewRouter()
	var kept [][]byte
	r.POST("/a", func(c *Context) { b, _ := c.BodyBytes(); kept = append(kept, b); c.String(200, "x") })
	e := r.Handler()
	for i := 0; i < 20; i++ {
		q := httptest.NewRequest("POST", "/a", strings.NewReader(strings.Repeat(string(rune('a'+i)), 40)))
		e.ServeHTTP(httptest.NewRecorder(), q)
	}
	for i, b := range kept {
		if string(b) != strings.Repeat(string(rune('a'+i)), 40) {
			t.Fatal(i, string(b))
		}
	}
''', "strings")),
 dict(id="body-short-ok", property="Q05",
  needs="a client that promises more body than it sends before closing",
  breaks="a body that breaks off is handed out as if it were complete",
  edits=[("content.go", "	data, err := ioutil.ReadAll(ctx.Request.Body)\n	if err != nil {\n", "	data, err := ioutil.ReadAll(ctx.Request.Body)\n	if err == io.ErrUnexpectedEOF && len(data) > 0 {\n		err = nil\n	}\n	if err != nil {\n")],
  demo=T('''	r := NewRouter()
	got := make(chan error, 1)
	r.POST("/a", func(c *Context) { _, err := c.BodyBytes(); got <- err; c.String(200, "x") })
	s := httptest.NewServer(r.Handler())
	defer s.Close()
	c, err := net.Dial("tcp", s.Listener.Addr().String())
	if err != nil {
		t.Fatal(err)
	}
	c.Write([]byte("POST /a HTTP/1.1\\r\\nHost: a\\r\\nContent-Length: 10\\r\\n\\r\\nabc"))
	c.(*net.TCPConn).CloseWrite()
	if <-got == nil {
		t.Fatal("no error")
	}
''', "net")),
 dict(id="body-exact-length", property="Q05",
  needs="a handler that reads some of the body before a later one reads the rest whole",
  breaks="the rest is refused as broken off, because the declared length is expected again",
  edits=[("content.go", "	data, err := ioutil.ReadAll(ctx.Request.Body)\n	if err != nil {\n",
          "	var data []byte\n	var err error\n	if n := ctx.Request.ContentLength; n > 0 && n <= 4096 {\n		data = make([]byte, n)\n		_, err = io.ReadFull(ctx.Request.Body, data)\n	} else {\n		data, err = ioutil.ReadAll(ctx.Request.Body)\n	}\n	if err != nil {\n")],
  demo=T('''	r := NewRouter()
	got := ""
	r.Use(func(c *Context) { c.ReadCloser().Read(make([]byte, 2)) })
	r.POST("/a", func(c *Context) { got, _ = c.BodyString(); c.String(200, "x") })
	r.Handler().ServeHTTP(httptest.NewRecorder(), httptest.NewRequest("POST", "/a", strings.NewReader("abcdef")))
	if got != "cdef" {
		t.Fatal(got)
	}
''', "strings")),
 dict(id="header-lines-joined", property="Q05",
  needs="a header sent in two lines",
  breaks="it reads as all its lines joined instead of the first",
  edits=[("content.go", "	return ctx.Request.Header.Get(key)\n}\n\nfunc (ctx *Context) SetHeader", "	return strings.Join(ctx.Request.Header.Values(key), \", \")\n}\n\nfunc (ctx *Context) SetHeader")],
  demo=T('''	r := NewRouter()
	got := ""
	r.GET("/a", func(c *Context) { got = c.GetHeader("x-a"); c.String(200, "x") })
	q := httptest.NewRequest("GET", "/a", nil)
	q.Header.Add("X-A", "1")
	q.Header.Add("X-A", "2")
	r.Handler().ServeHTTP(httptest.NewRecorder(), q)
	if got != "1" {
		t.Fatal(got)
	}
''')),
 dict(id="header-vary-append", property="Q05",
  needs="a handler that sets Vary when an earlier one has set it",
  breaks="the second value is added to the first instead of replacing it",
  edits=[("content.go", "	ctx.Header().Set(key, value)\n}\n", "	if http.CanonicalHeaderKey(key) == HeaderVary {\n		ctx.Header().Add(key, value)\n		return\n	}\n	ctx.Header().Set(key, value)\n}\n")],
  demo=T('''	r := NewRouter()
	r.Use(func(c *Context) { c.SetHeader("Vary", "A") })
	r.GET("/a", func(c *Context) { c.SetHeader("vary", "B"); c.String(200, "x") })
	if g := serveDemo(r.Handler(), "GET", "/a").Header().Values("Vary"); len(g) != 1 || g[0] != "B" {
		t.Fatal(g)
	}
''')),
 # --- N01
 dict(id="mount-shares-environ", property="N01",
  needs="an engine mounted in another engine, both storing under the same name",
  breaks="the inner engine works on the outer engine's environment",
  edits=[("engine.go", "	ctx.Environ = make(Environ)\n", "	ctx.Environ = make(Environ)\n	if outer, ok := rw.(*Context); ok {\n		ctx.Environ = outer.Environ\n	}\n")],
  demo=T('''	in := NewRouter()
	in.GET("/a", func(c *Context) { c.Set("k", 2); c.String(200, "x") })
	r := NewRouter()
	r.Use(func(c *Context) { c.Set("k", 1) })
	r.GET("/a", in.Handler())
	if g := serveDemo(r.Handler(), "GET", "/a").Code; g != 200 {
		t.Fatal(g)
	}
''')),
 dict(id="mount-unwrap", property="N01",
  needs="an engine mounted in another engine, and an outer handler that looks at the status afterwards",
  breaks="the inner answer goes past the outer context, which still says nothing was written",
  edits=[("engine.go", "	ctx.Request = req\n", "	ctx.Request = req\n	if outer, ok := rw.(*Context); ok { // one call less per write\n		ctx.ResponseWriter = outer.ResponseWriter\n	}\n")],
  demo=T('''	in := NewRouter()
	in.GET("/a", func(c *Context) { c.String(201, "x") })
	r := NewRouter()
	got := 0
	r.Use(func(c *Context) { c.Next(); got = c.Status() })
	r.GET("/a", in.Handler())
	serveDemo(r.Handler(), "GET", "/a")
	if got != 201 {
		t.Fatal(got)
	}
''')),
 dict(id="repanic-as-text", property="N01",
  needs="a handler of a mounted engine that panics with a value the outer code tells apart (such as http.ErrAbortHandler)",
  breaks="the panic arrives as a text, so the value is no longer the one raised",
  edits=[("engine.go", "	ctx.run()\n\n	e.ctxPool.Put(ctx)\n", "	defer func() {\n		if err := recover(); err != nil {\n			e.ctxPool.Put(ctx)\n			panic(fmt.Sprintf(\"%v\", err))\n		}\n	}()\n	ctx.run()\n\n	e.ctxPool.Put(ctx)\n"),
         ("engine.go", 'import (\n', 'import (\n	"fmt"\n')],
  demo=T('''	r := NewRouter()
	r.GET("/a", func(c *Context) { panic(http.ErrAbortHandler) })
	e := r.Handler()
	defer func() {
		if g := recover(); g != http.ErrAbortHandler {
			t.Fatalf("%T %v", g, g)
		}
	}()
	serveDemo(e, "GET", "/a")
''')),
 dict(id="run-port-env", property="N01",
  needs="PORT set in the process environment and Run called without an address",
  breaks="it serves on that port instead of :8080",
  edits=[("util.go", '		return ":8080"\n', '		if port := os.Getenv("PORT"); port != "" {\n			return ":" + port\n		}\n		return ":8080"\n'), ("util.go", '	"net/url"\n', '	"net/url"\n	"os"\n')],
  demo=T('''	os.Setenv("PORT", "1")
	if g := resolveAddress(nil); g != ":8080" {
		t.Fatal(g)
	}
''', "os")),
 dict(id="proto-one-only", property="N01",
  needs="a request over HTTP/2",
  breaks="it is refused as an unsupported protocol",
  edits=[("engine.go", "	if !req.ProtoAtLeast(1, 1) || req.RequestURI", "	if req.ProtoMajor != 1 || req.ProtoMinor < 1 || req.RequestURI")],
  demo=T('''	r := NewRouter()
	r.GET("/a", func(c *Context) { c.String(200, "x") })
	q := httptest.NewRequest("GET", "/a", nil)
	q.Proto, q.ProtoMajor, q.ProtoMinor = "HTTP/2.0", 2, 0
	w := httptest.NewRecorder()
	r.Handler().ServeHTTP(w, q)
	if w.Code != 200 {
		t.Fatal(w.Code)
	}
''')),
 # --- P01
 dict(id="raw-count-root", property="P01",
  needs="middleware on the root and the raw listing",
  breaks="the root's own middleware is not counted for routes below groups",
  edits=[("router_print.go", "	if r.parent != nil {\n		return len(r.befores) + len(r.handlers) + countHandlersForRawRouter(r.parent)\n	}\n\n	return len(r.befores) + len(r.handlers)\n", "	n := 0\n	for ; r.parent != nil; r = r.parent {\n		n += len(r.befores) + len(r.handlers)\n	}\n\n	return n\n")],
  demo=T(STDOUT + '''	r := NewRouter()
	h := func(c *Context) {}
	r.Use(h)
	r.Group("/g").GET("/a", h)
	e := r.Handler()
	if g := out(e.PrintRawRouter); !strings.Contains(g, ": 2]") {
		t.Fatal(g)
	}
''', "io", "os", "strings")),
 dict(id="raw-print-sorts", property="P01",
  needs="routes declared out of alphabetical order, the raw listing printed",
  breaks="the listing is sorted, and the tree of groups the user holds with it",
  edits=[("router_print.go", '	for i, n := 0, len(nodes); i < n; i++ {\n		if i == n-1 { // leaf\n			printRawRoute', '	sort.SliceStable(nodes, func(i, j int) bool { return nodes[i].pattern < nodes[j].pattern })\n	for i, n := 0, len(nodes); i < n; i++ {\n		if i == n-1 { // leaf\n			printRawRoute')],
  demo=T(STDOUT + '''	r := NewRouter()
	h := func(c *Context) {}
	r.GET("/b", h)
	r.GET("/a", h)
	e := r.Handler()
	if g := out(e.PrintRawRouter); strings.Index(g, "/b") > strings.Index(g, "/a") {
		t.Fatal(g)
	}
''', "io", "os", "strings")),
 # --- B05
 dict(id="bind2-last-decides", property="B05",
  needs="a nil pointer to a struct of which a field that is not the last one was given",
  breaks="the pointer stays nil and what was given is lost",
  edits=[("binding/mapping.go", "			isSetted = isSetted || ok // multi field\n", "			isSetted = ok // multi field\n")],
  demo=T('''	var o struct {
		P *struct {
			A string `form:"a"`
			B string `form:"b"`
		}
	}
	q := httptest.NewRequest("GET", "/?a=1", nil)
	if err := binding.Form.Bind2(q, &o); err != nil || o.P == nil || o.P.A != "1" {
		t.Fatal(err, o)
	}
''', BND)),
 dict(id="bind2-text-first", property="B05",
  needs="a multipart request with a file and a text of the same name",
  breaks="the text is tried for the file field and the file is lost",
  edits=[("binding/form.go", "	if files := m.File[key]; len(files) != 0 {\n", "	if files := m.File[key]; len(files) != 0 && len(m.Value[key]) == 0 {\n")],
  demo=T('''	var o struct {
		F *multipart.FileHeader `form:"f"`
	}
	var b bytes.Buffer
	m := multipart.NewWriter(&b)
	m.WriteField("f", "text")
	p, _ := m.CreateFormFile("f", "x.txt")
	p.Write([]byte("hi"))
	m.Close()
	q := httptest.NewRequest("POST", "/", &b)
	q.Header.Set("Content-Type", m.FormDataContentType())
	if err := binding.FormMultipart.Bind2(q, &o); err != nil || o.F == nil || o.F.Size != 2 {
		t.Fatal(err, o)
	}
''', BND, "bytes", "mime/multipart")),
 dict(id="bind2-embedded-lower", property="B05",
  needs="a field of an embedded struct whose type is unexported",
  breaks="the field is not bound",
  edits=[("binding/mapping.go", "			if sf.PkgPath != \"\" && !sf.Anonymous { // unexported\n", "			if sf.PkgPath != \"\" { // unexported\n")],
  demo=T('''	type page struct {
		A string `form:"a"`
	}
	var o struct{ page }
	if err := binding.Form.Bind2(httptest.NewRequest("GET", "/?a=1", nil), &o); err != nil || o.A != "1" {
		t.Fatal(err, o)
	}
''', BND)),
 dict(id="bind2-int16-wide", property="B05",
  needs="an int16 field given a value out of its range",
  breaks="the value is cut to 16 bits instead of being refused",
  edits=[("binding/mapping.go", "		return setIntField(val, 16, value)\n", "		return setIntField(val, 32, value)\n")],
  demo=T('''	var o struct {
		A int16 `form:"a"`
	}
	if err := binding.Form.Bind2(httptest.NewRequest("GET", "/?a=70000", nil), &o); err == nil {
		t.Fatal(o)
	}
''', BND)),
 dict(id="bind2-duration-digits", property="B05",
  needs="a duration given as bare digits",
  breaks="it is taken as nanoseconds instead of being refused",
  edits=[("binding/mapping.go", "	d, err := time.ParseDuration(val)\n	if err != nil {\n		return err\n	}\n	value.Set(", "	d, err := time.ParseDuration(val)\n	if n, nerr := strconv.ParseInt(val, 10, 64); err != nil && nerr == nil {\n		d, err = time.Duration(n), nil\n	}\n	if err != nil {\n		return err\n	}\n	value.Set(")],
  demo=T('''	var o struct {
		A time.Duration `form:"a"`
	}
	if err := binding.Form.Bind2(httptest.NewRequest("GET", "/?a=15", nil), &o); err == nil {
		t.Fatal(o)
	}
''', BND, "time")),
 # --- others
 dict(id="regexp-memo", property="I02",
  needs="two requests matched by the same regular-expression segment at the same time",
  breaks="the last match is remembered in the tree without a lock, so one request can get another's parameters",
  edits=[("tree.go", "			results := n.endNodes[i].reg.FindStringSubmatch(uri)\n", "			end := n.endNodes[i]\n			if end.lastUri != uri || end.lastRes == nil {\n				end.lastUri, end.lastRes = uri, end.reg.FindStringSubmatch(uri)\n			}\n			results := end.lastRes\n"),
         ("tree.go", "	reg           *regexp.Regexp\n\n", "	reg           *regexp.Regexp\n	lastUri       string\n	lastRes       []string\n\n")],
  race=True,
  demo=T('''	r := NewRouter()
	r.GET("/<id ~ [0-9]+>", func(c *Context) { c.String(200, c.Param("id")) })
	e := r.Handler()
	var wg sync.WaitGroup
	for i := 0; i < 8; i++ {
		wg.Add(1)
		go func(p string) {
			defer wg.Done()
			for j := 0; j < 2000; j++ {
				if g := serveDemo(e, "GET", "/"+p).Body.String(); g != p {
					t.Error(p, g)
					return
				}
			}
		}(strconv.Itoa(i))
	}
	wg.Wait()
''', "strconv", "sync")),
 dict(id="environ-nil-twice", property="E01",
  needs="a name set to nil and set again through the environment",
  breaks="a name holding nil counts as not set",
  edits=[("environ.go", "	_, ok := m[name]\n	return ok\n", "	return m[name] != nil\n")],
  demo=T('''	r := NewRouter()
	got := false
	r.GET("/a", func(c *Context) {
		c.Set("k", nil)
		defer func() { got = recover() != nil }()
		c.Set("k", 1)
	})
	serveDemo(r.Handler(), "GET", "/a")
	if !got {
		t.Fatal("set twice")
	}
''')),
 dict(id="samesite-none-dropped", property="Q03",
  needs="a cookie set with SameSite=None and without Secure",
  breaks="the attribute is dropped",
  edits=[("cookie.go", "		if v, ok := others[5].(http.SameSite); ok {\n", "		if v, ok := others[5].(http.SameSite); ok && (v != http.SameSiteNoneMode || cookie.Secure) {\n")],
  demo=T('''	r := NewRouter()
	r.GET("/a", func(c *Context) { c.SetCookie("a", "b", 0, "/", "", false, false, http.SameSiteNoneMode) })
	if g := serveDemo(r.Handler(), "GET", "/a").Header().Get("Set-Cookie"); g != "a=b; Path=/; SameSite=None" {
		t.Fatal(g)
	}
''')),
 dict(id="realip-first-colon", property="Q04",
  needs="an IPv6 client without proxy headers",
  breaks="the address is cut at its first colon",
  edits=[("util.go", '		if i := strings.LastIndex(ip, ":"); i > -1 {\n', '		if i := strings.Index(ip, ":"); i > -1 {\n')],
  demo=T('''	q := httptest.NewRequest("GET", "/", nil)
	q.RemoteAddr = "[::1]:5"
	if g := requestRealIp(q); g != "[::1]" {
		t.Fatal(g)
	}
''')),
 dict(id="must-zero-range", property="Q02",
  needs="a path parameter beyond the range of int64 read with MustInt64",
  breaks="it reads 0 instead of the nearest bound",
  edits=[("params.go", "	v, _ := p.Int64(name)\n	return v\n", "	if v, err := p.Int64(name); err == nil {\n		return v\n	}\n	return 0\n")],
  demo=T('''	if g := (Params{"a": "-99999999999999999999"}).MustInt64("a"); g != -9223372036854775808 {
		t.Fatal(g)
	}
''')),
 dict(id="empty-write", property="S01",
  needs="a first write of no bytes, then a status",
  breaks="writing nothing does not start the response in the context's eyes although the client gets 200",
  edits=[("context.go", "	if !ctx.written {\n		header := ctx.Header()\n", "	if !ctx.written && len(data) > 0 {\n		header := ctx.Header()\n")],
  demo=T('''	r := NewRouter()
	got := false
	r.GET("/a", func(c *Context) { c.Write(nil); got = c.Written() })
	serveDemo(r.Handler(), "GET", "/a")
	if !got {
		t.Fatal("unwritten")
	}
''')),
 dict(id="stream-sendfile", property="S01",
  needs="a streamed body on a connection that can copy by itself (a real one), and a look at the status afterwards",
  breaks="the bytes are sent past the context, which goes on saying nothing was written",
  edits=[("content.go", "	_, err := io.Copy(ctx, r)\n\n	return err\n", "	if rf, ok := ctx.ResponseWriter.(io.ReaderFrom); ok && !ctx.Written() {\n		_, err := rf.ReadFrom(r) // sendfile\n		return err\n	}\n\n	_, err := io.Copy(ctx, r)\n\n	return err\n")],
  demo=T('''	r := NewRouter()
	got := make(chan int, 1)
	r.Use(func(c *Context) { c.Next(); got <- c.Status() })
	r.GET("/a", func(c *Context) { c.Stream("text/x", strings.NewReader("hi")) })
	s := httptest.NewServer(r.Handler())
	defer s.Close()
	q, err := http.Get(s.URL + "/a")
	if err != nil {
		t.Fatal(err)
	}
	q.Body.Close()
	if g := <-got; g != 200 {
		t.Fatal(g)
	}
''', "strings")),
 dict(id="wildcard-two-spaces", property="R02",
  needs="a pattern of several names with more than one space between them",
  breaks="the second name keeps a space, so the parameter is not found under its name",
  edits=[("tree.go", "		ls[i] = strings.TrimSpace(ls[i])\n	}\n\n	return ls\n", "		ls[i] = strings.TrimPrefix(ls[i], \" \")\n	}\n\n	return ls\n")],
  demo=T('''	r := NewRouter()
	got := ""
	r.GET("/<a,  b ~ ([a-z])([0-9])>", func(c *Context) { got = c.Params["b"] })
	serveDemo(r.Handler(), "GET", "/x7")
	if got != "7" {
		t.Fatal(got)
	}
''')),
 dict(id="validate-only-tagged", property="B03",
  needs="an object whose constraints are all in the structs nested in it",
  breaks="an object without constraints of its own is not validated",
  edits=[("binding/validator.go", "		return v.validate.Struct(obj)\n", "		for i, t := 0, value.Type(); i < t.NumField(); i++ {\n			if _, ok := t.Field(i).Tag.Lookup(\"binding\"); ok || t.Field(i).Anonymous {\n				return v.validate.Struct(obj)\n			}\n		}\n		return nil // nothing to check\n")],
  demo=T('''	var o struct {
		N struct {
			A string `json:"a" binding:"required"`
		} `json:"n"`
	}
	if err := binding.JSON.Bind(httptest.NewRequest("POST", "/", strings.NewReader(`{"n":{}}`)), &o); err == nil {
		t.Fatal("valid")
	}
''', BND, "strings")),
 dict(id="multipart-hard-limit", property="B04",
  needs="an upload larger than the configured memory limit",
  breaks="it is refused instead of being kept on disk",
  edits=[("content.go", "		if err := ctx.Request.ParseMultipartForm(ctx.maxMultipartMemory); err != nil {\n", "		ctx.Request.Body = http.MaxBytesReader(ctx, ctx.Request.Body, ctx.maxMultipartMemory+1<<10)\n		if err := ctx.Request.ParseMultipartForm(ctx.maxMultipartMemory); err != nil {\n")],
  demo=T('''	r := NewRouter()
	got := int64(0)
	r.POST("/a", func(c *Context) {
		c.ParseFormOrMultipartForm()
		_, h, err := c.FormFile("f")
		if err != nil {
			t.Error(err)
			return
		}
		got = h.Size
	})
	var b bytes.Buffer
	m := multipart.NewWriter(&b)
	p, _ := m.CreateFormFile("f", "x.txt")
	p.Write(make([]byte, 5000))
	m.Close()
	q := httptest.NewRequest("POST", "/a", &b)
	q.Header.Set("Content-Type", m.FormDataContentType())
	defer func() {
		if g := recover(); g != nil || got != 5000 {
			t.Fatal(g, got)
		}
	}()
	r.Handler(WithMaxMultipartMemory(64)).ServeHTTP(httptest.NewRecorder(), q)
''', "bytes", "mime/multipart")),
 dict(id="json-nil-object", property="S02",
  needs="a nil value sent as JSON",
  breaks="the client gets {} instead of null",
  edits=[("content.go", "	err := json.NewEncoder(ctx).Encode(v)\n", "	if v == nil {\n		v = H{}\n	}\n	err := json.NewEncoder(ctx).Encode(v)\n")],
  demo=T('''	r := NewRouter()
	r.GET("/a", func(c *Context) { c.JSON(200, nil) })
	if g := serveDemo(r.Handler(), "GET", "/a").Body.String(); g != "null\\n" {
		t.Fatal(g)
	}
''')),
 dict(id="chain-index-byte", property="C02",
  needs="a chain of more than 127 handlers",
  breaks="the position in the chain wraps around",
  edits=[("context.go", "	index int\n", "	index int8\n"), ("context.go", "	for ctx.index < ctx.handlersLength {\n", "	for int(ctx.index) < ctx.handlersLength {\n")],
  demo=T('''	r := NewRouter()
	n := 0
	for i := 0; i < 130; i++ {
		r.Use(func(c *Context) { n++ })
	}
	r.GET("/a", func(c *Context) { c.String(200, "x") })
	if g := serveDemo(r.Handler(), "GET", "/a"); g.Code != 200 || n != 130 {
		t.Fatal(g.Code, n)
	}
''')),
]
