package main

import (
	"bytes"
	"context"
	"encoding/json"
	"encoding/xml"
	"errors"
	"io"
	"net/http"
	"net/url"
	"os"
	"path/filepath"
	"reflect"
	"regexp"
	"sort"
	"strconv"
	"strings"
	"time"

	"github.com/meilihao/water"
)

// Family "resp": what handlers answer and what the client receives (S02, D01).

type rsOp struct {
	A      string `json:"a"`
	Code   int    `json:"code"`
	Text   string `json:"text"`
	Ct     string `json:"ct"`
	Name   string `json:"name"`
	Value  string `json:"value"`
	Inline bool   `json:"inline"`
	Bad    bool   `json:"bad"`
	Mt     int64  `json:"mt"`
}
type rsReq struct {
	M     string `json:"m"`
	Split int    `json:"split"`
	Lo    int    `json:"lo"`
	Hi    int    `json:"hi"`
	Ims   int64  `json:"ims"`
	Ops   []rsOp `json:"ops"`
}
type rsObs struct {
	Err   string              `json:"err"`
	Panic string              `json:"panic"`
	Code  int                 `json:"code"`
	Body  string              `json:"body"`
	Canon string              `json:"canon"`
	Loc   string              `json:"loc"`
	H     map[string][]string `json:"h"`
	Errs  []bool              `json:"errs"`
}
type rsScen struct {
	Id   string  `json:"id"`
	Reqs []rsReq `json:"reqs"`
	Obs  []rsObs `json:"obs"`
	Open int     `json:"open"` // files left open
}

func init() { families["resp"] = Family{Gen: respGen, Exec: respExec} }

// one character per byte
func toBytes(s string) []byte {
	b := make([]byte, 0, len(s))
	for _, c := range s {
		b = append(b, byte(c))
	}
	return b
}
func fromBytes(b []byte) string {
	r := make([]rune, len(b))
	for i, c := range b {
		r[i] = rune(c)
	}
	return string(r)
}

var bigRx = regexp.MustCompile(`~~(\d+);`)
var zRx = regexp.MustCompile(`z{300,}`)

func expand(s string) string {
	return bigRx.ReplaceAllStringFunc(s, func(m string) string {
		n, _ := strconv.Atoi(m[2 : len(m)-1])
		return strings.Repeat("z", n)
	})
}
func squeeze(s string) string {
	return zRx.ReplaceAllStringFunc(s, func(m string) string { return "~~" + itoa(len(m)) + ";" })
}

// goValue turns canonical JSON into Go values as handlers would pass them: objects
// become structs.
func goValue(x interface{}) interface{} {
	switch v := x.(type) {
	case json.Number:
		if i, err := v.Int64(); err == nil {
			return i
		}
		f, _ := v.Float64()
		return f
	case []interface{}:
		for i := range v {
			v[i] = goValue(v[i])
		}
		return v
	case map[string]interface{}:
		ks := []string{}
		for k := range v {
			ks = append(ks, k)
		}
		sort.Strings(ks)
		fs := []reflect.StructField{}
		vals := []interface{}{}
		for i, k := range ks {
			fs = append(fs, reflect.StructField{Name: "F" + itoa(i), Type: reflect.TypeOf((*interface{})(nil)).Elem(), Tag: reflect.StructTag(`json:"` + k + `"`)})
			vals = append(vals, goValue(v[k]))
		}
		p := reflect.New(reflect.StructOf(fs))
		for i, x := range vals {
			if x != nil {
				p.Elem().Field(i).Set(reflect.ValueOf(x))
			}
		}
		return p.Interface()
	case string:
		return expand(v)
	}
	return x
}

func canonJSON(b []byte) string {
	d := json.NewDecoder(bytes.NewReader(b))
	d.UseNumber()
	var x interface{}
	if err := d.Decode(&x); err != nil {
		return "unreadable: " + err.Error()
	}
	var rest interface{}
	if d.Decode(&rest) != io.EOF {
		return "more than one value"
	}
	return squeeze(string(enc1(x)))
}

func enc1(v interface{}) []byte {
	var b bytes.Buffer
	j := json.NewEncoder(&b)
	j.SetEscapeHTML(false)
	die(j.Encode(v))
	return bytes.TrimSpace(b.Bytes())
}

type xItem struct {
	XMLName xml.Name `xml:"item" json:"-"`
	Id      int      `xml:"id,attr" json:"id"`
	Name    string   `xml:"name" json:"name"`
	Tags    []string `xml:"tag" json:"tags"`
}

type failing struct {
	r   io.Reader
	err error
}

func (f failing) Read(p []byte) (int, error) {
	n, err := f.r.Read(p)
	if err == io.EOF {
		err = f.err
	}
	return n, err
}

// slow hides every other method of a reader and gives small pieces.
type slow struct{ r io.Reader }

func (s slow) Read(p []byte) (int, error) {
	if len(p) > 7 {
		p = p[:7]
	}
	return s.r.Read(p)
}

type tplRender struct{}

func (tplRender) HTMLSet(c *water.Context, code int, set, name string, data interface{}) {
	c.Header().Set("Content-Type", "text/html; charset=utf-8")
	c.WriteHeader(code)
	c.Write([]byte(set + "|" + name + "|"))
	c.Write(data.([]byte))
}

func respOp(c *water.Context, op rsOp, file string) bool {
	text := toBytes(expand(op.Text))
	switch op.A {
	case "set":
		c.SetHeader(op.Name, op.Value)
	case "add":
		c.Header().Add(op.Name, op.Value)
	case "cookie":
		c.SetCookie(op.Name, op.Value)
	case "nocache":
		c.NoCache()
	case "String":
		c.String(op.Code, string(text))
	case "HTMLRaw":
		c.HTMLRaw(op.Code, string(text))
	case "Data":
		c.Data(op.Code, op.Ct, text)
	case "JSON":
		if op.Bad {
			return c.JSON(op.Code, make(chan int)) != nil
		}
		d := json.NewDecoder(strings.NewReader(op.Text))
		d.UseNumber()
		var x interface{}
		die(d.Decode(&x))
		return c.JSON(op.Code, goValue(x)) != nil
	case "XML":
		if op.Bad {
			return c.XML(op.Code, make(chan int)) != nil
		}
		x := xItem{}
		die(json.Unmarshal([]byte(op.Text), &x))
		return c.XML(op.Code, &x) != nil
	case "HTMLdef": // the renderer the package comes with
		if op.Name == "" {
			c.HTML(op.Code, op.Value, text)
		} else {
			c.HTMLSet(op.Code, op.Name, op.Value, text)
		}
	case "HTML":
		water.SetRender(tplRender{})
		if op.Name == "" {
			c.HTML(op.Code, op.Value, text)
		} else {
			c.HTMLSet(op.Code, op.Name, op.Value, text)
		}
	case "Write":
		n, err := c.Write(text)
		return err != nil && err != http.ErrBodyNotAllowed || err == nil && n != len(text)
	case "WriteHeader":
		c.WriteHeader(op.Code)
	case "Stream":
		var rd io.Reader = bytes.NewReader(text)
		if len(text)%2 == 1 {
			rd = slow{rd}
		}
		if op.Bad {
			rd = failing{rd, []error{errors.New("broken source"), io.ErrUnexpectedEOF, io.ErrClosedPipe, context.Canceled}[len(text)/2%4]}
		}
		return c.Stream(op.Ct, rd) != nil
	case "MovedPermanently":
		c.MovedPermanently(op.Value)
	case "Found":
		c.Found(op.Value)
	case "NotModified":
		c.NotModified()
	case "BadRequest":
		c.BadRequest()
	case "Unauthorized":
		c.Unauthorized()
	case "Forbidden":
		c.Forbidden()
	case "NotFound":
		c.NotFound()
	case "InternalServerError":
		c.InternalServerError()
	case "Abort":
		c.Abort(op.Code)
	case "File":
		c.File(file)
	case "ServeFile":
		c.ServeFile(file)
	case "Download":
		if op.Inline {
			return c.Download(file, true) != nil
		} else if len(op.Text)%2 == 0 {
			return c.Download(file) != nil
		}
		return c.Download(file, false) != nil
	case "Attachment":
		mt := time.Time{}
		if op.Mt != 0 {
			mt = time.Unix(op.Mt, 0)
		}
		if op.Inline {
			c.Attachment(string(toBytes(op.Name)), mt, bytes.NewReader(text), true)
		} else if len(op.Text)%2 == 0 {
			c.Attachment(string(toBytes(op.Name)), mt, bytes.NewReader(text))
		} else {
			c.Attachment(string(toBytes(op.Name)), mt, bytes.NewReader(text), false)
		}
	default:
		die(errors.New("unknown operation " + op.A))
	}
	return false
}

func respExec(e *Env, raw json.RawMessage) (interface{}, error) {
	var s rsScen
	if err := dec(raw, &s); err != nil {
		return nil, err
	}
	s.Obs = []rsObs{}
	base, err := os.MkdirTemp(e.Scratch, "rs")
	die(err)
	defer os.RemoveAll(base)
	var cur *rsReq
	var o *rsObs
	files := map[int]string{}
	r := water.NewRouter()
	run := func(c *water.Context, from, to int) {
		o.Panic += caught(func() {
			for i := from; i < to; i++ {
				o.Errs = append(o.Errs, respOp(c, cur.Ops[i], files[i]))
			}
		})
	}
	for _, reg := range []func(string, ...interface{}){r.ANY, r.HEAD} {
		reg("/k/x", func(c *water.Context) { run(c, 0, cur.Split) }, func(c *water.Context) { run(c, cur.Split, len(cur.Ops)) })
	}
	v := newSrv(r.Handler())
	defer v.close()
	for qi := range s.Reqs {
		cur = &s.Reqs[qi]
		ob := rsObs{H: map[string][]string{}, Errs: []bool{}}
		o = &ob
		xmlOp, jsonOp := false, false
		for i, op := range cur.Ops {
			switch op.A {
			case "JSON":
				jsonOp = true
			case "XML":
				xmlOp = true
			case "set", "add":
				ob.H[op.Name] = nil
			case "File", "ServeFile", "Download":
				d := filepath.Join(base, itoa(qi)+"-"+itoa(i))
				die(os.Mkdir(d, 0755))
				n := string(toBytes(op.Name))
				if n == "" {
					n = "f"
				}
				f := filepath.Join(d, n)
				if op.Bad {
					if op.A == "Download" && op.Inline { // a directory instead of a missing file
						die(os.Mkdir(f, 0755))
					}
				} else {
					die(os.WriteFile(f, toBytes(expand(op.Text)), 0644))
					if op.Mt != 0 {
						die(os.Chtimes(f, time.Unix(op.Mt, 0), time.Unix(op.Mt, 0)))
					}
				}
				files[i] = f
			}
		}
		for _, n := range []string{"Content-Type", "Content-Description", "Content-Transfer-Encoding", "Content-Disposition", "Expires", "Pragma", "Cache-Control", "Set-Cookie", "Content-Range"} {
			ob.H[n] = nil
		}
		hs := [][]string{}
		switch {
		case cur.Lo >= 0 && cur.Hi >= 0:
			hs = append(hs, []string{"Range", "bytes=" + itoa(cur.Lo) + "-" + itoa(cur.Hi)})
		case cur.Lo >= 0:
			hs = append(hs, []string{"Range", "bytes=" + itoa(cur.Lo) + "-"})
		case cur.Hi >= 0:
			hs = append(hs, []string{"Range", "bytes=-" + itoa(cur.Hi)})
		}
		if cur.Ims >= 0 {
			hs = append(hs, []string{"If-Modified-Since", time.Unix(cur.Ims, 0).UTC().Format(http.TimeFormat)})
		}
		a := v.do(cur.M, "/k/x", hs, nil)
		ob.Err, ob.Code, ob.Body = a.Err, a.Code, squeeze(fromBytes(a.Body))
		for n := range ob.H {
			l := []string{}
			for _, x := range a.H[n] {
				if n == "Set-Cookie" {
					x = strings.SplitN(x, ";", 2)[0]
				}
				l = append(l, x)
			}
			ob.H[n] = l
		}
		if l := a.H.Get("Location"); l != "" {
			b, _ := url.Parse("http://example.com/k/x")
			if u, err := url.Parse(l); err != nil {
				ob.Loc = "unreadable " + l
			} else {
				u = b.ResolveReference(u)
				if u.Host == b.Host {
					u.Scheme, u.Host = "", ""
				}
				ob.Loc = u.Path
				if u.RawQuery != "" {
					ob.Loc += "?" + u.RawQuery
				}
				if u.Fragment != "" {
					ob.Loc += "#" + u.Fragment
				}
				if u.Host != "" {
					ob.Loc = u.Scheme + "://" + u.Host + ob.Loc
				}
			}
		}
		if jsonOp {
			ob.Canon = canonJSON(a.Body)
		} else if xmlOp {
			x := xItem{Tags: []string{}}
			if err := xml.Unmarshal(a.Body, &x); err != nil {
				ob.Canon = "unreadable: " + err.Error()
			} else {
				ob.Canon = squeeze(string(enc1(x)))
			}
		}
		if jsonOp || xmlOp {
			ob.Body = ""
		}
		s.Obs = append(s.Obs, ob)
	}
	s.Open = openUnder(base)
	return s, nil
}

func respGen(e *Env) []interface{} {
	r := e.R
	out := []interface{}{}
	d01 := e.Profile == "D01"
	text := func() string {
		return pick(r, "", "x", "hello world", "<html><body>hi</body></html>", " \n<!DOCTYPE html>\n<p>", "<p>one", "<pre>", "<?xml version=\"1.0\"?><a/>", "%PDF-1.4 x", "GIF89a.", "GIF89b.",
			"a\tb\r\nc\f", "\x01\x02", "bin\x00ary", "text\x1b[0m", "h\u00c3\u00a9llo", "\u00e6\u0097\u00a5", "\u00ff\u00fe?", "<b", "<B >", "<a>", "<ab>", "{\"a\":1}", "0", "~~5000;.", "a~~70000;b", "~~40000;<p>", "b~~1048577;", "%!PS-Adobe-3",
			"plain text that is somewhat longer than the others, with a few words", strings.Repeat("0123456789", 30))
	}
	code := func() int {
		return []int{200, 200, 201, 202, 204, 206, 226, 299, 300, 304, 305, 400, 401, 404, 409, 418, 422, 429, 451, 500, 501, 503, 511, 599, 600, 999}[r.Intn(26)]
	}
	fname := func() string {
		n := pick(r, "f.txt", "a b.txt", "report (1).pdf", "q\"uote\".txt", "semi;colon", "x\r\nSet-Cookie: a=b", "100%25.txt", "%22", "\u00c3\u00a9t\u00c3\u00a9.doc", "\u00e6\u0097\u00a5\u00e6\u009c\u00ac.html", "a=b&c", "it's", "..x", "back\\slash",
			"tab\there", "comma, name", "\u00ff\u00fe", "~tilde_-.", "<b>", "q?x#y", "plus+plus", "star*", "utf-8''x", "x; filename=evil", "a:b@c$d", "\x01", "\x7f", "new\nline", "[x]{y}|z^`")
		return n
	}
	val := func() string {
		var v func(d int) interface{}
		v = func(d int) interface{} {
			switch k := r.Intn(8); {
			case k < 3:
				return pick(r, "", "x", "<a href=\"x\">&amp;</a>", "日本語", "a\nb\tc\\\"", "\u2028", "é", "null", "~~4000;", "😀", "\x01\x1f")
			case k == 3:
				return json.Number(pick(r, "0", "-1", "42", "9007199254740993", "-9223372036854775808", "0.5", "-12.25", "0.123456789", "1e+21", "3.0000001", "1048576"))
			case k == 4:
				return r.Intn(2) == 0
			case k == 6 && r.Intn(2) == 0:
				return nil
			case k == 5 && d > 0:
				l := []interface{}{}
				for j := r.Intn(4); j > 0; j-- {
					l = append(l, v(d-1))
				}
				return l
			case d > 0:
				m := map[string]interface{}{}
				for j := 1 + r.Intn(3); j > 0; j-- {
					m[pick(r, "a", "b", "name", "é", "x-y", "A1")] = v(d - 1)
				}
				return m
			}
			return nil
		}
		return string(enc1(v(2)))
	}
	for i := 0; i < e.N; i++ {
		s := rsScen{Id: "r" + itoa(i), Reqs: []rsReq{}}
		html := pick(r, "HTML", "HTML", "HTML", "HTMLdef")
		for x := 1 + r.Intn(4); x > 0; x-- {
			q := rsReq{M: pick(r, "GET", "GET", "GET", "HEAD", "POST"), Lo: -1, Hi: -1, Ims: -1, Ops: []rsOp{}}
			add := func(op rsOp) { q.Ops = append(q.Ops, op) }
			heads := func() {
				for j := r.Intn(3); j > 0; j-- {
					switch r.Intn(8) {
					case 0:
						add(rsOp{A: "nocache"})
					case 1, 2:
						add(rsOp{A: "cookie", Name: pick(r, "a", "sid", "b"), Value: pick(r, "1", "abc", "")})
					case 3:
						if !d01 {
							add(rsOp{A: "set", Name: "Content-Type", Value: pick(r, "text/css", "image/png", "application/x-custom; v=1")})
						}
					default:
						add(rsOp{A: pick(r, "set", "set", "add"), Name: pick(r, "X-A", "X-B", "Vary", "Link", "Etag", "X-Frame-Options"), Value: pick(r, "1", "two words", "a, b", "\"q\"", "")})
					}
				}
			}
			heads()
			k := r.Intn(13)
			if d01 {
				k = 20 + r.Intn(4)
			}
			switch k {
			case 0:
				add(rsOp{A: "JSON", Code: code(), Text: val(), Bad: r.Intn(10) == 0})
			case 1:
				t := []string{}
				for j := r.Intn(3); j > 0; j-- {
					t = append(t, pick(r, "t", "<x>", "", "日本", "a & b"))
				}
				add(rsOp{A: "XML", Code: code(), Text: string(enc1(xItem{Id: r.Intn(100), Name: pick(r, "", "n", "<n>&'\"", "é\nx"), Tags: t})), Bad: r.Intn(10) == 0})
			case 2:
				ct := pick(r, "text/csv", "application/octet-stream", "video/mp4")
				add(rsOp{A: "Stream", Ct: ct, Text: text(), Bad: r.Intn(6) == 0})
			case 3:
				add(rsOp{A: pick(r, "MovedPermanently", "Found"), Value: pick(r, "/", "/a/b?x=1", "http://other.example/p?q=1#f", "next", "/日本", "/a b", "/x?u=http://h/", "https://example.org", "/q?a=1&b=<2>", "sub/page", "//other.example/a", "//other.example/a/b/", "HTTPS://other.example/A", "/x:y", "/A/b")})
			case 4:
				add(rsOp{A: pick(r, "NotModified", "BadRequest", "Unauthorized", "Forbidden", "NotFound", "InternalServerError")})
			case 5:
				add(rsOp{A: "Abort", Code: code()})
			case 6:
				add(rsOp{A: html, Code: code(), Name: pick(r, "", "set2"), Value: pick(r, "index", "a/b"), Text: text()})
			case 7, 8:
				add(rsOp{A: "Write", Text: text()})
			case 9:
				add(rsOp{A: "WriteHeader", Code: code()})
				add(rsOp{A: "Write", Text: text()})
			case 10:
				add(rsOp{A: "Data", Code: code(), Ct: pick(r, "text/plain", "image/gif", "text/html", "a/b;c=d"), Text: text()})
			case 11, 12:
				add(rsOp{A: pick(r, "String", "HTMLRaw"), Code: code(), Text: text()})
			default:
				mt := []int64{0, 1000000000, 1500000000}[r.Intn(3)]
				op := rsOp{A: []string{"Download", "Download", "Attachment", pick(r, "File", "ServeFile")}[k-20], Text: text(), Name: fname(), Inline: r.Intn(3) == 0, Mt: mt}
				if strings.Contains(op.A, "File") {
					op.Name = "f" + pick(r, ".txt", ".html", ".png", "", " x", ".zz")
				}
				if op.A != "Attachment" {
					op.Bad = r.Intn(4) == 0
					if mt == 0 {
						op.Mt = 1300000000
					}
				} else if r.Intn(4) == 0 {
					op.Name = pick(r, "", "a/b", "/", "../x", "x/../y")
				}
				if q.M == "POST" {
					q.M = "GET"
				}
				if !strings.Contains(op.Text, "~~") && op.Text != "" && r.Intn(2) == 0 {
					n := len([]rune(op.Text))
					switch r.Intn(4) {
					case 0:
						q.Lo = r.Intn(n)
						q.Hi = q.Lo + r.Intn(n+2)
					case 1:
						q.Lo = r.Intn(n + 1)
					case 2:
						q.Hi = 1 + r.Intn(n+2)
					case 3:
						q.Lo, q.Hi = n+r.Intn(3), n+9
					}
				}
				if r.Intn(2) == 0 {
					q.Ims = op.Mt + int64(r.Intn(3)) - 1
					if op.Mt == 0 {
						q.Ims = 1400000000
					}
				}
				add(op)
				if op.Bad && op.A == "Download" && r.Intn(4) > 0 {
					add(rsOp{A: pick(r, "String", "HTMLRaw", "Data"), Code: pick2(r.Intn(2) == 0, 404, 500), Ct: "text/x-err", Text: "no file"})
				}
			}
			last := q.Ops[len(q.Ops)-1]
			if !d01 && r.Intn(4) == 0 && (last.A == "Write" || last.A == "String" || last.A == "Data" || last.A == "HTMLRaw" || last.A == "Abort" || last.A == html || last.A == "WriteHeader") {
				add(rsOp{A: pick(r, "String", "Write", "HTMLRaw", "Abort", "Unauthorized"), Code: code(), Text: text()})
			}
			q.Split = r.Intn(len(q.Ops) + 1)
			s.Reqs = append(s.Reqs, q)
		}
		out = append(out, s)
	}
	return out
}

func pick2(c bool, a, b int) int {
	if c {
		return a
	}
	return b
}
