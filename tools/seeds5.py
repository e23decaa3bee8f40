# fifth batch; T, HTTP and SEEDS come from seeds.py
def TX(body, *imports):
    """a demo on a real server, built with the extended tag"""
    return ('''// +build extended

package water

import (
	"io"
	"net/http"
	"net/http/httptest"
	"testing"
%s)

func TestZZDemo(t *testing.T) {
	LogClose = true
''' % "".join('\t"%s"\n' % i for i in imports)) + body + "}\n\nvar _ = io.EOF\nvar _ = http.StatusOK\nvar _ httptest.ResponseRecorder\n"
SEEDS += [
 dict(id="written-by-status", property="S05", tags="extended",
  needs="a build with the extended tag and a handler that hijacks the connection",
  breaks="the context says nothing was written after a successful hijack",
  edits=[("context.go", "func (ctx *Context) Written() bool {\n	return ctx.written\n", "func (ctx *Context) Written() bool {\n	return ctx.status != 0\n")],
  demo=TX('''	r := NewRouter()
	written := false
	r.GET("/", func(c *Context) {
		k, _, err := c.Hijack()
		if err != nil {
			t.Error(err)
			return
		}
		defer k.Close()
		written = c.Written()
		io.WriteString(k, "HTTP/1.1 200 OK\\r\\nContent-Length: 2\\r\\nConnection: close\\r\\n\\r\\nok")
	})
	s := httptest.NewServer(r.Handler())
	p, err := http.Get(s.URL)
	if err != nil {
		t.Fatal(err)
	}
	p.Body.Close()
	s.Close()
	if !written {
		t.Fatal("not written")
	}
''')),
 dict(id="run-on-after-hijack", property="S05", tags="extended",
  needs="a build with the extended tag and a handler that hijacks the connection before the last one of the chain",
  breaks="the next handler of the chain runs although the connection is somebody else's",
  edits=[("context.go", "		ctx.handlers[ctx.index].ServeHTTP(ctx)\n", "		h := ctx.handlers[ctx.index]\n		h.ServeHTTP(ctx)\n\n		if ctx.status == 0 { // no answer yet\n			ctx.index += 1\n			continue\n		}\n")],
  demo=TX('''	r := NewRouter()
	next := false
	r.GET("/", func(c *Context) {
		k, _, err := c.Hijack()
		if err != nil {
			t.Error(err)
			return
		}
		defer k.Close()
		io.WriteString(k, "HTTP/1.1 200 OK\\r\\nContent-Length: 2\\r\\nConnection: close\\r\\n\\r\\nok")
	}, func(c *Context) { next = true })
	s := httptest.NewServer(r.Handler())
	p, err := http.Get(s.URL)
	if err != nil {
		t.Fatal(err)
	}
	p.Body.Close()
	s.Close()
	if next {
		t.Fatal("ran on")
	}
''')),
]
