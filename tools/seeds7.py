# seventh batch; T, TX, HTTP and SEEDS come from the files before
SEEDS += [
 dict(id="group-args-first", property="C01",
  needs="a group created with a function that adds middleware, followed by middleware in the same call",
  breaks="middleware given after the function runs before what the function added",
  edits=[("router.go", "			rr.befores = append(rr.befores, v)\n		case func(*Router):\n			v(rr)\n", "			rr.befores = append(rr.befores, v)\n		case func(*Router):\n			defer v(rr)\n")],
  demo=T('''	r := NewRouter()
	s := ""
	h := func(x string) func(*Context) { return func(c *Context) { s += x } }
	r.Group("/g", func(g *Router) {
		g.Use(h("b"))
		g.GET("/a", func(c *Context) { c.Abort(200) })
	}, h("c"))
	serveDemo(r.Handler(), "GET", "/g/a")
	if s != "bc" {
		t.Fatal(s)
	}
''')),
 dict(id="logger-chunked-unlogged", property="S04",
  needs="a JSON request sent with chunked encoding, its length unknown",
  breaks="its body is missing from the log line",
  edits=[("m_logger.go", "if LogHttpBody && ctx.Request.Body != nil && ", "if LogHttpBody && ctx.Request.Body != nil && ctx.Request.ContentLength > 0 && ")],
  demo=T('''	LogClose, LogColor = false, false
	file := t.TempDir() + "/log"
	f, _ := os.Create(file)
	old := os.Stdout
	os.Stdout = f
	l := logx.NewLogger()
	l.AddLogger("console", `{"color":false}`)
	os.Stdout = old
	logx.SetOutput(l)
	r := NewRouter()
	r.Use(Logger())
	r.POST("/", func(c *Context) { c.Abort(200) })
	q := httptest.NewRequest("POST", "/", strings.NewReader("{\\"zz\\":1}"))
	q.ContentLength = -1
	q.Header.Set("Content-Type", "application/json")
	r.Handler().ServeHTTP(httptest.NewRecorder(), q)
	b, _ := os.ReadFile(file)
	if !strings.Contains(string(b), "zz") {
		t.Fatal(string(b))
	}
''', "os", "strings", "github.com/meilihao/logx")),
 dict(id="cors-age-cap", property="M01",
  needs="a configured max-age of more than a day",
  breaks="a day is announced instead",
  edits=[("m_cors.go", "	maxAge := strconv.Itoa(config.MaxAge)\n", "	if config.MaxAge > 86400 { // what browsers accept at most\n		config.MaxAge = 86400\n	}\n	maxAge := strconv.Itoa(config.MaxAge)\n")],
  demo=T('''	r := NewRouter()
	r.Use(CORS(CORSConfig{MaxAge: 604800}))
	r.OPTIONS("/", func(c *Context) { c.Abort(200) })
	w := serveDemo(r.Handler(), "OPTIONS", "/")
	if w.Header().Get("Access-Control-Max-Age") != "604800" {
		t.Fatal(w.Header())
	}
''')),
 dict(id="etag-get-only", property="M03",
  needs="a HEAD request with the current tag in If-None-Match",
  breaks="it is answered 200 instead of 304",
  edits=[("m_static.go", '			if ctx.Request.Header.Get("If-None-Match") == tag {\n				ctx.WriteHeader(', '			if ctx.Request.Method == http.MethodGet && ctx.Request.Header.Get("If-None-Match") == tag {\n				ctx.WriteHeader(')],
  demo=T('''	d := t.TempDir()
	os.WriteFile(d+"/f.txt", []byte("abc"), 0600)
	r := NewRouter()
	r.StaticAdvance(&StaticOptions{Prefix: "/s", FileSystem: http.Dir(d), ETag: ETagType1})
	e := r.Handler()
	tag := serveDemo(e, "GET", "/s/f.txt").Header().Get("ETag")
	q := httptest.NewRequest("HEAD", "/s/f.txt", nil)
	q.Header.Set("If-None-Match", tag)
	w := httptest.NewRecorder()
	e.ServeHTTP(w, q)
	if w.Code != 304 {
		t.Fatal(w.Code, tag)
	}
''', "os")),
 dict(id="query-array-blank", property="Q01",
  needs="a repeated query name of which one value is blank",
  breaks="the list leaves the blank value out",
  edits=[("query.go", "	vs := ctx.Request.Form[name]\n\n	tmp := make([]string, len(vs))\n	for i := range vs {\n		tmp[i] = strings.TrimSpace(vs[i])\n	}\n	return tmp\n", "	vs := ctx.Request.Form[name]\n\n	tmp := make([]string, 0, len(vs))\n	for i := range vs {\n		if v := strings.TrimSpace(vs[i]); v != \"\" || len(vs) == 1 {\n			tmp = append(tmp, v)\n		}\n	}\n	return tmp\n")],
  demo=T('''	r := NewRouter()
	n := 0
	r.GET("/", func(c *Context) { n = len(c.QueryArray("a")); c.Abort(200) })
	serveDemo(r.Handler(), "GET", "/?a=1&a=&a=2")
	if n != 3 {
		t.Fatal(n)
	}
''')),
 dict(id="validate-plain-by-name", property="B03",
  needs="two types of the same name declared in different functions, the one without constraints bound first",
  breaks="the constraints of the other one are not checked",
  edits=[("binding/validator.go", "		return v.validate.Struct(obj)\n", "		name := value.Type().String()\n		if _, ok := plainTypes.Load(name); ok {\n			return nil\n		}\n		if !constrained(value.Type(), 0) {\n			plainTypes.Store(name, true)\n			return nil\n		}\n		return v.validate.Struct(obj)\n"),
         ("binding/validator.go", "// StructValidater is an interface which needs to be implemented\n", '''// plainTypes are the names of types without constraints
var plainTypes sync.Map

func constrained(t reflect.Type, depth int) bool {
	for t.Kind() == reflect.Ptr || t.Kind() == reflect.Slice || t.Kind() == reflect.Array {
		t = t.Elem()
	}
	if t.Kind() != reflect.Struct {
		return t.Kind() == reflect.Interface || t.Kind() == reflect.Map
	}
	if depth > 8 {
		return true
	}
	for i := 0; i < t.NumField(); i++ {
		if t.Field(i).Tag.Get("binding") != "" || constrained(t.Field(i).Type, depth+1) {
			return true
		}
	}
	return false
}

// StructValidater is an interface which needs to be implemented
'''), ("binding/validator.go", '	"strings"\n', '	"strings"\n	"sync"\n')],
  pkg="binding/",
  demo='''package binding

import (
	"net/http/httptest"
	"testing"
)

func one() error {
	type form struct {
		A string `form:"a"`
	}
	return Query.Bind(httptest.NewRequest("GET", "/?a=x", nil), &form{})
}

func two() error {
	type form struct {
		A string `form:"a" binding:"len=3"`
	}
	return Query.Bind(httptest.NewRequest("GET", "/?a=x", nil), &form{})
}

func TestZZDemo(t *testing.T) {
	if err := one(); err != nil {
		t.Fatal(err)
	}
	if two() == nil {
		t.Fatal("accepted")
	}
}
'''),
 dict(id="regexp-empty-group", property="R02",
  needs="a regular-expression segment one of whose groups matches nothing",
  breaks="the parameter is not captured, asking for it panics",
  edits=[("tree.go", "				params[n.endNodes[i].wildcards[j]] = results[j+1]\n", "				if results[j+1] != \"\" {\n					params[n.endNodes[i].wildcards[j]] = results[j+1]\n				}\n")],
  demo=T('''	r := NewRouter()
	ok := false
	r.GET("/<a,b ~ ([a-z]+)([0-9]*)>", func(c *Context) { _, ok = c.Params["b"]; c.Abort(200) })
	serveDemo(r.Handler(), "GET", "/abc")
	if !ok {
		t.Fatal("no b")
	}
''')),
 dict(id="std-hides-flush", property="S05", tags="extended",
  needs="a standard-library handler that flushes, in a build with the extended tag",
  breaks="the handler is given a writer that cannot flush",
  edits=[("engine.go", "			h.ServeHTTP(ctx, ctx.Request)\n", "			h.ServeHTTP(struct{ http.ResponseWriter }{ctx}, ctx.Request)\n")],
  demo=TX('''	r := NewRouter()
	ok := false
	r.GET("/", http.HandlerFunc(func(w http.ResponseWriter, q *http.Request) {
		_, ok = w.(http.Flusher)
		w.WriteHeader(200)
	}))
	s := httptest.NewServer(r.Handler())
	defer s.Close()
	p, err := http.Get(s.URL)
	if err != nil {
		t.Fatal(err)
	}
	p.Body.Close()
	if !ok {
		t.Fatal("cannot flush")
	}
''')),
 dict(id="attachment-base-name", property="D01",
  needs="an attachment whose name has a backslash or slash in it",
  breaks="only what follows it is sent as the name",
  edits=[("util.go", '	if dispositionType == "" {\n', '	if i := strings.LastIndexAny(fileName, "/\\\\"); i >= 0 && i+1 < len(fileName) {\n		fileName = fileName[i+1:]\n	}\n	if dispositionType == "" {\n')],
  demo=T('''	r := NewRouter()
	r.GET("/", func(c *Context) { c.Attachment("a\\\\b.txt", time.Time{}, strings.NewReader("x")) })
	w := serveDemo(r.Handler(), "GET", "/")
	if !strings.Contains(w.Header().Get("Content-Disposition"), "a%5Cb.txt") {
		t.Fatal(w.Header())
	}
''', "strings", "time")),
 dict(id="stream-keeps-type", property="S02",
  needs="a stream sent after another content type was set, as by a middleware",
  breaks="the earlier type is kept",
  edits=[("content.go", "	ctx.Header().Set(HeaderContentType, contentType)\n\n	_, err := io.Copy(ctx, r)\n", "	if ctx.Header().Get(HeaderContentType) == \"\" {\n		ctx.Header().Set(HeaderContentType, contentType)\n	}\n\n	_, err := io.Copy(ctx, r)\n")],
  demo=T('''	r := NewRouter()
	r.Use(func(c *Context) { c.Header().Set("Content-Type", "text/plain") })
	r.GET("/", func(c *Context) { c.Stream("image/png", strings.NewReader("x")) })
	w := serveDemo(r.Handler(), "GET", "/")
	if w.Header().Get("Content-Type") != "image/png" {
		t.Fatal(w.Header())
	}
''', "strings")),
]
