package main

import (
	"bytes"
	"fmt"
	"html/template"
	"mime/multipart"
	"net/http"
	"os"
	"path/filepath"
	"sort"
	"strconv"
	"strings"
	"sync"
	"time"

	"github.com/meilihao/water"
)

// The "app" mode of family "pool": an application using most of the framework.
// Every call is answered once by an engine of its own, then many times by one
// engine serving all calls at once; the answers have to be the same.

type appUser struct {
	Name  string   `json:"name" form:"name" xml:"name" binding:"required"`
	Age   int      `json:"age" form:"age,default=7" xml:"age"`
	Tags  []string `json:"tags" form:"tags" xml:"tags"`
	Inner struct {
		City string `json:"city" form:"city" xml:"city"`
	} `json:"inner" xml:"inner"`
}

type appRender struct{ t *template.Template }

func (p *appRender) HTMLSet(c *water.Context, code int, set, name string, data interface{}) {
	c.Header().Set("Content-Type", "text/html; charset=UTF-8")
	c.WriteHeader(code)
	p.t.Execute(c, data)
}

func appDir(e *Env) string {
	d := filepath.Join(e.Scratch, "app")
	if _, err := os.Stat(d); err != nil {
		die(os.MkdirAll(filepath.Join(d, "sub"), 0755))
		for i := 0; i < 4; i++ {
			p := filepath.Join(d, "f"+itoa(i)+".txt")
			die(os.WriteFile(p, []byte(strings.Repeat("file"+itoa(i)+" ", 10+i)), 0644))
			die(os.Chtimes(p, time.Unix(1600000000, 0), time.Unix(1600000000+int64(i), 0)))
			die(os.WriteFile(filepath.Join(d, "sub", "i"+itoa(i)+".html"), []byte("<p>"+itoa(i)), 0644))
		}
	}
	return d
}

func appEngine(dir string) http.Handler {
	r := water.NewRouter()
	r.Before(water.Recovery(), water.Logger(), water.CORS(water.CORSConfig{AllowOrigins: []string{"http://a", "http://b"}, AllowMethods: []string{"GET"}, AllowCredentials: true, MaxAge: 5}))
	r.StaticAdvance(&water.StaticOptions{Prefix: "/st", FileSystem: http.Dir(dir), ETag: water.ETagType2, Expires: func() string { return "Thu, 01 Jan 2037 00:00:00 GMT" }})
	r.StaticAdvance(&water.StaticOptions{Prefix: "/ix", FileSystem: http.Dir(dir), IndexFile: "f1.txt"})
	r.StaticFile("/one", filepath.Join(dir, "f0.txt"))
	r.GET("/str/<id>", func(c *water.Context) { c.String(200+c.Params.MustInt("id")%4, "id="+c.Param("id")) })
	r.GET("/json/<id>/<rest ~ ([a-z]+)>", func(c *water.Context) {
		u := appUser{Name: c.Param("id"), Age: 3, Tags: []string{c.Param("rest"), c.FullPath()}}
		c.JSON(201, u)
	})
	r.GET("/xml/<id>", func(c *water.Context) { c.XML(200, appUser{Name: c.Param("id")}) })
	r.GET("/html/<id>", func(c *water.Context) { c.HTML(202, "t", c.Param("id")) })
	r.GET("/raw/<id>", func(c *water.Context) { c.Write([]byte("<html>" + c.Param("id"))) })
	r.GET("/die/<id>", func(c *water.Context) {
		if c.Params.MustInt("id")%2 == 0 {
			c.WriteHeader(203)
		}
		panic("die " + c.Param("id"))
	})
	r.GET("/dl/<id>", func(c *water.Context) { c.Download(filepath.Join(dir, "f"+itoa(c.Params.MustInt("id")%6)+".txt")) })
	r.GET("/go/<id>", func(c *water.Context) { c.Found("/x/" + c.Param("id")) })
	r.GET("/cookie/<id>", func(c *water.Context) {
		c.SetCookie("k", c.Param("id"), 5, "/p")
		c.String(200, c.Cookie("me")+fmt.Sprint(c.CookieInt("n")))
	})
	r.GET("/who/<id>", func(c *water.Context) {
		c.String(200, fmt.Sprint(c.RealIp(), c.Proxy(), c.Protocol(), c.ContentType(), c.IsAjax(), c.HandlerName() != ""))
	})
	r.Group("/g", func(g *water.Router) {
		g.Use(func(c *water.Context) { c.Set("u", c.Param("id")) })
		g.GET("/<id>", func(c *water.Context) { c.Next(); c.Write([]byte("!")) }, func(c *water.Context) { c.String(200, c.Environ.GetString("u")) })
	})
	form := func(c *water.Context) {
		c.String(200, fmt.Sprint(c.Query("name"), c.QueryArray("tags"), c.DefaultQuery("none", "d"), len(c.QueryMap("m")), c.QueryInt("age")))
	}
	r.GET("/form", form)
	r.POST("/form", form)
	bind := func(c *water.Context) {
		u := appUser{}
		err := c.Bind(&u)
		c.String(200, fmt.Sprintf("%+v %v", u, err != nil))
	}
	r.GET("/bind", bind)
	r.POST("/bind", bind)
	r.ANY("/any/*", func(c *water.Context) { c.String(200, c.Request.Method+c.Param("*0")) })
	return r.Handler(water.WithStaticRouter(true), water.WithNoFoundHandlers(func(c *water.Context) { c.String(404, "none "+c.Request.URL.Path) }))
}

// appCall builds a request of a call "kind number".
func appCall(call string) *http.Request {
	f := strings.Fields(call)
	k, n := f[0], f[1]
	i, _ := strconv.Atoi(n)
	m, path, raw, ct, body := "GET", "/"+k+"/"+n, "", "", ""
	h := http.Header{}
	switch k {
	case "json":
		path += "/" + strings.Repeat("r", 1+i%3)
	case "st":
		path = "/st/f" + itoa(i%5) + ".txt"
		if i%7 == 0 {
			path = "/st/sub/"
		}
		if i%3 == 0 {
			h.Set("If-None-Match", fmt.Sprintf("%x-%x-%x", 1600000000+i%5, 60+i%5*6, "f"+itoa(i%5)+".txt"))
		}
	case "ix":
		path = []string{"/ix/", "/ix/sub", "/ix/f2.txt"}[i%3]
	case "one":
		path = "/one"
	case "none":
		path = []string{"/nope/" + n, "/str/" + n + "/z", "/json/" + n + "/9/q"}[i%3]
	case "cors":
		path, m = "/str/1", []string{"OPTIONS", "GET"}[i%2]
		h.Set("Origin", "http://"+string(rune('a'+i%4)))
		h.Set("Access-Control-Request-Headers", "X-"+n)
	case "who":
		h.Set("X-Forwarded-For", "1.1.1."+n+", 2.2.2.2")
		h.Set("Content-Type", "text/x"+n+"; a=b")
	case "cookie":
		h.Set("Cookie", "me="+n+"; n="+n)
	case "form":
		path, raw = "/form", "name=n"+n+"&tags=a"+n+"&tags=b&m[x]=1&age="+n
		if i%2 == 0 {
			m, ct, body = "POST", "application/x-www-form-urlencoded", "name=body"+n+"&tags=c"+n
		}
	case "bind":
		m, path = "POST", "/bind"
		switch i % 5 {
		case 0:
			ct, body = "application/json", `{"name":"j`+n+`","age":`+n+`,"tags":["x`+n+`"]}`
		case 1:
			ct, body = "application/xml", "<appUser><name>x"+n+"</name><age>"+n+"</age></appUser>"
		case 2:
			ct, body = "application/x-www-form-urlencoded", "name=f"+n+"&city=c"+n+"&tags=1&tags="+n
		case 3:
			m, raw = "GET", "name=g"+n
		case 4:
			var b bytes.Buffer
			w := multipart.NewWriter(&b)
			w.SetBoundary("bnd")
			w.WriteField("name", "m"+n)
			w.WriteField("age", n)
			w.Close()
			ct, body = "multipart/form-data; boundary=bnd", b.String()
		}
	case "any":
		m = []string{"PUT", "PATCH", "DELETE", "HEAD", "PURGE"}[i%5]
	}
	q := newReq(m, path, "1.1", strings.NewReader(body))
	q.ContentLength = int64(len(body))
	q.URL.RawQuery = raw
	for a, v := range h {
		q.Header[a] = v
	}
	if ct != "" {
		q.Header.Set("Content-Type", ct)
	}
	return q
}

var appKinds = []string{"str", "json", "xml", "html", "raw", "die", "dl", "go", "cookie", "who", "g", "form", "bind", "any", "st", "ix", "one", "none", "cors"}

func appAnswer(h http.Handler, call string) string {
	w := newRec()
	p := caught(func() { h.ServeHTTP(w, appCall(call)) })
	hs := []string{}
	for k, v := range w.h {
		hs = append(hs, k+"="+strings.Join(v, ","))
	}
	sort.Strings(hs)
	body := w.body.String()
	if strings.HasPrefix(call, "die") { // no stack
		body = strings.SplitN(body, "\n", 2)[0]
	}
	return fmt.Sprint(p, "|", w.codes, "|", strings.Join(hs, ";"), "|", body)
}

func appGen(e *Env, s *plScen) {
	s.Mode, s.Lanes = "app", 4+e.R.Intn(5)
	s.Calls = []string{}
	for i := 8 + e.R.Intn(12); i > 0; i-- {
		s.Calls = append(s.Calls, appKinds[e.R.Intn(len(appKinds))]+" "+itoa(e.R.Intn(40)))
	}
	sort.Strings(s.Calls)
}

func appExec(e *Env, s *plScen) {
	dir := appDir(e)
	water.LogClose = false
	defer func() { water.LogClose = true }()
	water.SetRender(&appRender{template.Must(template.New("t").Parse("<b>{{.}}</b>"))})
	for _, c := range s.Calls {
		s.Alone = append(s.Alone, appAnswer(appEngine(dir), c))
	}
	eng := appEngine(dir)
	got := make([]map[string]bool, len(s.Calls))
	for i := range got {
		got[i] = map[string]bool{}
	}
	var mu sync.Mutex
	var wg sync.WaitGroup
	for l := 0; l < s.Lanes; l++ {
		wg.Add(1)
		go func(l int) {
			defer wg.Done()
			for x := range s.Calls {
				i := (x + l*3) % len(s.Calls)
				a := appAnswer(eng, s.Calls[i])
				mu.Lock()
				got[i][a] = true
				mu.Unlock()
			}
		}(l)
	}
	wg.Wait()
	for i := range got {
		l := []string{}
		for a := range got[i] {
			l = append(l, a)
		}
		sort.Strings(l)
		s.Conc = append(s.Conc, l)
	}
}
