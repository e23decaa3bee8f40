package main

import (
	"encoding/json"
	"errors"
	"fmt"
	"io"
	"net/http"
	"os"
	"path/filepath"
	"regexp"
	"sort"
	"strings"

	"github.com/meilihao/logx"
	"github.com/meilihao/water"
)

// Family "log": chains with the access logger (S04).

type lBody struct {
	Size int    `json:"size"`
	Err  string `json:"err"` // "", "broken" or "nil"
	Len  string `json:"len"` // "": known, "no": not known
	Fp   string `json:"fp"`  // what a handler sees of the request otherwise
}
type lReq struct {
	Method string     `json:"method"`
	Uri    string     `json:"uri"`
	Hs     [][]string `json:"hs"`
	Peer   string     `json:"peer"`
	Tls    bool       `json:"tls"`
}
type lObs struct {
	Evs   []cEv      `json:"evs"`
	Esc   bool       `json:"esc"`
	Codes []int      `json:"codes"`
	Sent  int        `json:"sent"`
	Hdrs  []string   `json:"hdrs"`
	Lines [][]string `json:"lines"`
	Texts [][]int    `json:"texts"` // per line: the length of the body it shows (-1: none) and where in the body that could be
	Ansi  []bool     `json:"ansi"`
}
type lScen struct {
	Id      string     `json:"id"`
	Hs      []cHandler `json:"hs"`
	Stable  bool       `json:"stable"`
	Nf      bool       `json:"nf"`
	Before  int        `json:"before"`
	Method  string     `json:"method"`
	Reps    int        `json:"reps"`
	Body    lBody      `json:"body"`
	Ctype   string     `json:"ctype"`
	Q       lReq       `json:"q"`
	LogBody bool       `json:"logbody"`
	Color   bool       `json:"color"`
	Obs     []lObs     `json:"obs"`
}

func init() { families["log"] = Family{Gen: logGen, Exec: logExec} }

// patBody is a body whose byte i is known from i.
type patBody struct {
	pos, size int
	err       error
	step      int // at most so many bytes per Read
}

func patAt(i int) byte { return byte('a' + (i*7+i/26)%26) }

func (b *patBody) Read(p []byte) (int, error) {
	if b.pos >= b.size {
		return 0, b.err
	}
	n := b.size - b.pos
	if n > len(p) {
		n = len(p)
	}
	if b.step > 0 && n > b.step {
		n = b.step
	}
	for i := 0; i < n; i++ {
		p[i] = patAt(b.pos + i)
	}
	b.pos += n
	return n, nil
}
func (b *patBody) Close() error { return nil }

// reqPrint is everything of a request but its body.
func reqPrint(q *http.Request) string {
	l := []string{}
	for k, v := range q.Header {
		l = append(l, k+"="+strings.Join(v, ","))
	}
	sort.Strings(l)
	return fmt.Sprint(q.Method, " ", q.URL, " ", q.RequestURI, " ", q.Proto, " ", q.ContentLength, " ", q.TransferEncoding, " ", q.Host, " ", q.RemoteAddr, " ", strings.Join(l, ";"))
}

var errBroken = errors.New("broken")

// readSome reads n bytes (-1: all) and says what came; pos is where the pattern should be.
func readSome(rc io.ReadCloser, pos *int, n int) string {
	if rc == nil {
		return "0/nil"
	}
	var b []byte
	var err error
	if n < 0 {
		b, err = io.ReadAll(rc)
	} else if n > 0 {
		b = make([]byte, n)
		var k int
		k, err = io.ReadFull(rc, b)
		b = b[:k]
	}
	bad := ""
	for i := range b {
		if b[i] != patAt(*pos+i) {
			bad = "wrong byte at " + itoa(*pos+i) + ","
			break
		}
	}
	*pos += len(b)
	t := ""
	switch {
	case err == errBroken:
		t = "broken"
	case err == io.EOF || err == io.ErrUnexpectedEOF:
		t = "eof"
	case err != nil:
		t = "other: " + err.Error()
	}
	return bad + itoa(len(b)) + "/" + t
}

var ansi = regexp.MustCompile("\x1b\\[[0-9;]*m")
var bodyLike = regexp.MustCompile(`^[a-z]*$`)
var wordSep = regexp.MustCompile(`[\s|]+`)

func logExec(e *Env, raw json.RawMessage) (interface{}, error) {
	var s lScen
	if err := dec(raw, &s); err != nil {
		return nil, err
	}
	s.Obs = []lObs{}
	dir := filepath.Join(e.Scratch, "log")
	die(os.MkdirAll(dir, 0755))
	tok := "tok" + itoa(len(raw)) + "z" + s.Id
	if s.Q.Uri == "" {
		s.Q.Uri = "/r?t=" + tok
	} else {
		i := strings.Index(s.Q.Uri, "tok")
		tok = s.Q.Uri[i:]
	}
	cs := cScen{Hs: s.Hs}
	r := &cRun{e: e, s: &cs}
	router := water.NewRouter()
	water.LogClose = true
	hs := []interface{}{}
	for i := range s.Hs {
		if s.Hs[i].Kind == "logger" {
			water.LogClose = false
		}
		hs = append(hs, r.handler(i+1))
	}
	ob, oc := water.LogHttpBody, water.LogColor
	water.LogHttpBody, water.LogColor = s.LogBody, s.Color
	water.Status = water.Dev
	if s.Stable {
		water.Status = water.Stable
	}
	f, err := os.Create(filepath.Join(dir, "out"))
	die(err)
	old := os.Stdout
	os.Stdout = f
	l := logx.NewLogger()
	l.AddLogger("console", `{"color":false}`)
	os.Stdout = old
	logx.SetOutput(l)
	defer func() {
		water.LogClose, water.LogHttpBody, water.LogColor, water.Status = true, ob, oc, water.Dev
		quietLog()
		f.Close()
	}()
	b := s.Before
	if b >= len(hs) {
		b = len(hs) - 1
	}
	opts := []water.Option{}
	router.Before(hs[:b]...)
	if s.Nf {
		opts = append(opts, water.WithNoFoundHandlers(hs[b:]...))
		router.GET("/other", func(*water.Context) {})
	} else {
		m := b + (len(hs)-b)/2
		if m == len(hs) && m > b {
			m--
		}
		router.Use(hs[b:m]...)
		regAs(router, s.Method, "/r", hs[m:]...)
	}
	eng := router.Handler(opts...)
	for i := 0; i < s.Reps; i++ {
		o := cObs{Evs: []cEv{}, Codes: []int{}}
		r.o, r.tokens = &o, map[[2]int]string{}
		pos := 0
		marks := []int{0}
		r.read = func(n int, ctx *water.Context) string {
			x := readSome(ctx.Request.Body, &pos, n)
			marks = append(marks, pos)
			return x
		}
		w := newRec()
		w.hook = func(code int) { o.Evs = append(o.Evs, cEv{E: "H", C: code}) }
		q := newReq(s.Method, "/r", "1.1", nil)
		j := strings.Index(s.Q.Uri, "?")
		q.URL.Path, q.URL.RawQuery = s.Q.Uri[:j], s.Q.Uri[j+1:]
		q.RequestURI = s.Q.Uri
		q.RemoteAddr = s.Q.Peer
		for _, h := range s.Q.Hs {
			q.Header[h[0]] = append(q.Header[h[0]], h[1])
		}
		if s.Ctype != "" {
			q.Header.Set("Content-Type", s.Ctype)
		}
		pb := &patBody{size: s.Body.Size, err: io.EOF, step: 1 + (s.Body.Size % 70000)}
		q.Body, q.ContentLength = pb, int64(s.Body.Size)
		switch s.Body.Err {
		case "broken":
			pb.err = errBroken
		case "nil":
			q.Body, q.ContentLength = nil, 0
		}
		if s.Body.Len == "no" {
			q.ContentLength, q.TransferEncoding = -1, []string{"chunked"}
		}
		s.Body.Fp = reqPrint(q)
		r.print = func(ctx *water.Context) string { return reqPrint(ctx.Request) }
		start, _ := f.Seek(0, io.SeekEnd)
		ok := false
		func() {
			defer func() {
				if !ok {
					recover()
					o.Esc = true
				}
			}()
			eng.ServeHTTP(w, q)
			ok = true
		}()
		f.Seek(start, io.SeekStart)
		text, _ := io.ReadAll(f)
		lo := lObs{Evs: o.Evs, Esc: o.Esc, Codes: append([]int{}, w.codes...), Sent: w.body.Len(), Hdrs: []string{}, Lines: [][]string{}, Texts: [][]int{}, Ansi: []bool{}}
		for k := range w.h {
			lo.Hdrs = append(lo.Hdrs, k)
		}
		sort.Strings(lo.Hdrs)
		rows := strings.Split(string(text), "\n")
		for n, line := range rows {
			if !strings.Contains(line, tok) {
				continue
			}
			lo.Ansi = append(lo.Ansi, ansi.MatchString(line))
			t := []int{-1}
			if n+1 < len(rows)-1 && !strings.Contains(rows[n+1], tok) && bodyLike.MatchString(rows[n+1]) { // a body is letters
				b := rows[n+1]
				t = []int{len(b)}
				for _, p := range marks {
					k := 0
					for k < len(b) && b[k] == patAt(p+k) {
						k++
					}
					if k == len(b) {
						t = append(t, p)
					}
				}
			}
			lo.Texts = append(lo.Texts, t)
			ws := map[string]bool{}
			for _, x := range wordSep.Split(ansi.ReplaceAllString(line, ""), -1) {
				if len(x) < 300 {
					ws[x] = true
				}
			}
			l := []string{}
			for x := range ws {
				l = append(l, x)
			}
			sort.Strings(l)
			lo.Lines = append(lo.Lines, l)
		}
		s.Obs = append(s.Obs, lo)
	}
	return s, nil
}

func logGen(e *Env) []interface{} {
	r := e.R
	out := []interface{}{}
	for i := 0; i < e.N; i++ {
		s := lScen{Id: "l" + itoa(i), Stable: r.Intn(2) == 0, Nf: r.Intn(8) == 0, Method: pick(r, "POST", "POST", "PUT", "PATCH", "DELETE", "GET", "GET", "OPTIONS", "HEAD"),
			Reps: 1 + r.Intn(2), LogBody: r.Intn(5) > 0, Color: r.Intn(2) == 0}
		big := r.Intn(12) == 0
		s.Body.Size = []int{0, 1, 2, 3, 17, 511, 512, 513, 1000, 4096, 5000}[r.Intn(11)]
		if big {
			s.Body.Size = []int{65536, 1 << 19, 1<<20 - 1, 1 << 20, 1<<20 + 1, 1<<20 + 5, 2 << 20, 2<<20 + 1, 3<<20 + 7, 5 << 20}[r.Intn(10)]
			s.Reps = 1
		}
		switch r.Intn(12) {
		case 0:
			s.Body.Err = "broken"
		case 1:
			s.Body = lBody{Err: "nil"}
		}
		if s.Body.Err != "nil" && r.Intn(4) == 0 {
			s.Body.Len = "no"
		}
		s.Ctype = pick(r, "application/json", "application/json", "application/json", "application/json; charset=utf-8", "application/json;charset=gbk", "text/plain", "", "application/x-www-form-urlencoded",
			"multipart/form-data; boundary=x", "application/xml", "application/problem+json", "text/json", "Application/JSON", "application/jsonlines")
		if big && r.Intn(4) > 0 {
			s.Ctype = "application/json"
		}
		s.Q = lReq{Method: s.Method, Hs: [][]string{}, Peer: pick(r, "192.0.2.1:1234", "[2001:db8::1]:80", "127.0.0.1:9", "192.0.2.77")}
		if r.Intn(3) == 0 {
			s.Q.Hs = append(s.Q.Hs, []string{"X-Forwarded-For", pick(r, "203.0.113.9", "203.0.113.9, 10.0.0.1", "203.0.113.9,10.0.0.1")})
		}
		if r.Intn(5) == 0 {
			s.Q.Hs = append(s.Q.Hs, []string{"X-Real-Ip", "198.51.100.4"})
		}
		if r.Intn(4) == 0 {
			s.Q.Hs = append(s.Q.Hs, []string{"Trace-Id", pick(r, "abc", "%d", "200", "404")})
		}
		s.Q.Uri = "/r?" + pick(r, "", "a=%25d&", "x=1&y=%s&", "%%%%25&", "q=POST&", "z=200&") + "t=tok" + itoa(i) + "z"
		n := 1 + r.Intn(5)
		s.Before = []int{0, 0, 1, 2, n}[r.Intn(5)]
		closed := r.Intn(8) == 0
		kind := "logger"
		if closed {
			kind = "logoff"
		}
		at := r.Intn(n)
		for x := 0; x < n; x++ {
			h := cHandler{Kind: "user", Form: pick(r, handlerForms...), Steps: []cStep{}}
			switch {
			case x == at || r.Intn(15) == 0:
				h.Kind = kind
			case r.Intn(8) == 0:
				h.Kind = "recovery"
			}
			if h.Kind == "user" {
				if big && r.Intn(2) == 0 {
					h.Steps = append(h.Steps, cStep{A: "read", N: -1})
				}
				for m := r.Intn(5); m > 0; m-- {
					c := codesPool[r.Intn(len(codesPool))]
					var st cStep
					switch d := r.Intn(100); {
					case d < 30:
						k := []int{0, 1, 2, 7, 100, 512, 5000}[r.Intn(7)]
						if big {
							k = []int{1, 1 << 19, 1 << 20, 1<<20 + 1, 700000}[r.Intn(5)]
						}
						if r.Intn(2) == 0 {
							k = -1
						}
						st = cStep{A: "read", N: k}
					case d < 50:
						st = cStep{A: "next"}
					case d < 53:
						st = cStep{A: "trynext"}
					case d < 60:
						st = cStep{A: "hdr", C: c}
					case d < 70:
						st = cStep{A: "string", C: c, N: r.Intn(50)}
					case d < 80:
						st = cStep{A: "write", N: r.Intn(50)}
					case d < 87:
						st = cStep{A: "panic", C: r.Intn(panicKinds)}
					case d < 91:
						st = cStep{A: "look"}
					case d < 97:
						st = cStep{A: "req"}
					default:
						st = cStep{A: "header"}
					}
					h.Steps = append(h.Steps, st)
				}
			}
			s.Hs = append(s.Hs, h)
		}
		count("log_" + kind)
		out = append(out, s)
	}
	return out
}
