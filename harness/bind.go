package main

import (
	"bytes"
	"encoding/json"
	"encoding/xml"
	"fmt"
	"io"
	"math/rand"
	"mime/multipart"
	"net/http"
	"net/textproto"
	"os"
	"path/filepath"
	"reflect"
	"strings"
	"time"

	"github.com/meilihao/water"
	"github.com/meilihao/water/binding"
)

// Family "bind": binding requests to objects (B01-B04). Target types are made
// with package reflect from their description.

type bRule struct {
	R string `json:"r"`
	P string `json:"p"`
}
type bField struct {
	N   string   `json:"n"`
	K   string   `json:"k"`
	P   bool     `json:"p"`
	L   bool     `json:"l"`
	E   bool     `json:"e"`
	Ex  bool     `json:"ex"`
	T   string   `json:"t"`
	D   string   `json:"d"`
	R   []bRule  `json:"r"`
	Pre bool     `json:"pre"`
	Tf  string   `json:"tf"`
	Tz  string   `json:"tz"`
	Sub []bField `json:"sub"`
	A   int      `json:"a"` // length of an array
}
type bPart struct {
	N     string `json:"n"`
	File  bool   `json:"file"`
	Fname string `json:"fname"`
	Z     int    `json:"z"`
	S     string `json:"s"`
}
type bMember struct {
	N string `json:"n"`
	V bDoc   `json:"v"`
}
type bDoc struct {
	T string    `json:"t"`
	S string    `json:"s"`
	O []bMember `json:"o"`
	A []bDoc    `json:"a"`
}
type bReq struct {
	M     string     `json:"m"`
	Ct    string     `json:"ct"`
	Query [][]string `json:"query"`
	Badq  bool       `json:"badq"`
	Bk    string     `json:"bk"`
	Body  [][]string `json:"body"`
	Parts []bPart    `json:"parts"`
	Doc   bDoc       `json:"doc"`
	Cut   bool       `json:"cut"`
	Hs    [][]string `json:"hs"`
	Uri   [][]string `json:"uri"`
	Jt    []bText    `json:"jt"` // JSON texts among the values
}
type bText struct {
	S string `json:"s"`
	D bDoc   `json:"d"`
}
type bNV struct {
	N     string `json:"n"`
	V     string `json:"v"`
	Saved string `json:"saved"`
	Bad   string `json:"bad"` // what saving where nothing can be saved came to
}
type bNVs struct {
	N string   `json:"n"`
	V []string `json:"v"`
}
type bObs struct {
	Panic string     `json:"panic"`
	Err   bool       `json:"err"`
	Val   [][]string `json:"val"`
	Files []bNV      `json:"files"`
	M     []bNVs     `json:"m"`
}
type bScen struct {
	Id     string   `json:"id"`
	Fs     []bField `json:"fs"`
	Cat    string   `json:"cat"` // the type is this one of the catalog
	Q      bReq     `json:"q"`
	Via    string   `json:"via"`
	Direct bool     `json:"direct"`
	Top    string   `json:"top"`
	An     int      `json:"an"`    // a list is an array of so many
	Twice  bool     `json:"twice"` // bound a second time, to a new object
	Names  []string `json:"names"` // FormFile asked for these
	Mem    int64    `json:"mem"`
	Enc    int      `json:"enc"`
	Obs    []bObs   `json:"obs"`
}

func init() { families["bind"] = Family{Gen: bindGen, Exec: bindExec} }

var bKinds = map[string]reflect.Type{
	"string": reflect.TypeOf(""), "bool": reflect.TypeOf(true),
	"int": reflect.TypeOf(0), "int8": reflect.TypeOf(int8(0)), "int16": reflect.TypeOf(int16(0)), "int32": reflect.TypeOf(int32(0)), "int64": reflect.TypeOf(int64(0)),
	"uint": reflect.TypeOf(uint(0)), "uint8": reflect.TypeOf(uint8(0)), "uint16": reflect.TypeOf(uint16(0)), "uint32": reflect.TypeOf(uint32(0)), "uint64": reflect.TypeOf(uint64(0)),
	"float32": reflect.TypeOf(float32(0)), "float64": reflect.TypeOf(float64(0)), "time": reflect.TypeOf(time.Time{}), "dur": reflect.TypeOf(time.Duration(0)),
	"file": reflect.TypeOf(multipart.FileHeader{}), "any": reflect.TypeOf((*interface{})(nil)).Elem(),
	"maps": reflect.TypeOf(map[string]string{}), "mapi": reflect.TypeOf(map[string]int{}),
}

func bBare(f *bField) reflect.Type {
	if f.K == "struct" {
		return bType(f.Sub)
	}
	return bKinds[f.K]
}

func bRules(rs []bRule) string {
	l := []string{}
	for _, r := range rs {
		if r.P != "" {
			l = append(l, r.R+"="+r.P)
		} else {
			l = append(l, r.R)
		}
	}
	return strings.Join(l, ",")
}

var bRel map[string]bool // the tags that count

func bSetRel(via string) {
	via = strings.TrimPrefix(via, "2")
	switch via {
	case "header", "uri":
		bRel = map[string]bool{via: true}
	case "json":
		bRel = map[string]bool{}
	case "xml":
		bRel = map[string]bool{"xml": true}
	case "auto":
		bRel = map[string]bool{"form": true, "xml": true}
	default:
		bRel = map[string]bool{"form": true}
	}
}

func bType(fs []bField) reflect.Type {
	sf := []reflect.StructField{}
	for i := range fs {
		f := &fs[i]
		t := bBare(f)
		if f.P || f.K == "file" {
			t = reflect.PtrTo(t)
		}
		if f.A > 0 {
			t = reflect.ArrayOf(f.A, t)
		} else if f.L {
			t = reflect.SliceOf(t)
		}
		tag := ""
		add := func(k, v string) {
			if v != "" {
				tag += fmt.Sprintf("%s:%q ", k, v)
			}
		}
		for _, k := range []string{"form", "header", "uri"} {
			v, d := f.T, f.D
			if !bRel[k] { // a tag nobody should read
				v, d = fs[(i+1)%len(fs)].T+"zz"[len(fs)%2*2:], fs[(i+1)%len(fs)].D
				if len(fs) == 1 {
					v = "other"
				}
			}
			if d != "" {
				v += ",default=" + d
			}
			add(k, v)
		}
		add("json", f.T)
		if bRel["xml"] {
			add("xml", f.T)
		} else {
			add("xml", fs[(i+1)%len(fs)].T)
		}
		add("binding", bRules(f.R))
		add("time_format", map[string]string{"unix": "unix", "unixnano": "unixNano", "date": "2006-01-02"}[f.Tf])
		switch f.Tz {
		case "utc":
			if len(f.N)%2 == 0 {
				add("time_utc", "1")
			} else {
				add("time_location", "UTC")
			}
		case "bad":
			add("time_location", "No/Where")
		}
		x := reflect.StructField{Name: f.N, Type: t, Tag: reflect.StructTag(strings.TrimSpace(tag)), Anonymous: f.E}
		if !f.Ex {
			x.PkgPath = "main"
		}
		sf = append(sf, x)
	}
	return reflect.StructOf(sf)
}

var bPreTime = time.Date(1999, 9, 9, 9, 9, 9, 0, time.UTC)

// bSet gives v (of the type of f without pointer and list) what it holds before binding.
func bSet(f *bField, v reflect.Value, pre bool) {
	switch {
	case f.K == "struct":
		for i := range f.Sub {
			bStart(&f.Sub[i], v.Field(i))
		}
	case !pre:
	case f.K == "maps":
		v.Set(reflect.ValueOf(map[string]string{"a": "pre"}))
	case f.K == "mapi":
		v.Set(reflect.ValueOf(map[string]int{"a": 7}))
	case f.K == "string":
		v.SetString("pre")
	case f.K == "bool":
		v.SetBool(true)
	case f.K == "time":
		v.Set(reflect.ValueOf(bPreTime))
	case strings.HasPrefix(f.K, "int"), f.K == "dur":
		v.SetInt(7)
	case strings.HasPrefix(f.K, "uint"):
		v.SetUint(7)
	case strings.HasPrefix(f.K, "float"):
		v.SetFloat(7)
	}
}
func bStart(f *bField, v reflect.Value) {
	if !f.Ex || f.K == "file" || f.K == "any" {
		return
	}
	if (f.P || f.L) && !f.Pre || f.A > 0 {
		return
	}
	v = settable(v)
	x := v
	if f.L {
		v.Set(reflect.MakeSlice(v.Type(), 1, 1))
		x = v.Index(0)
	}
	if f.P {
		x.Set(reflect.New(x.Type().Elem()))
		x = x.Elem()
	}
	bSet(f, x, f.Pre)
}

func bScalar(f *bField, v reflect.Value) string {
	switch {
	case f.K == "string":
		return squeeze(v.String())
	case f.K == "bool":
		return fmt.Sprint(v.Bool())
	case f.K == "time":
		t := v.Interface().(time.Time)
		if t == (time.Time{}) {
			return "zero"
		}
		if f.Tf == "unix" || f.Tf == "unixnano" {
			ns := strings.TrimLeft(fmt.Sprintf("%09d", t.Nanosecond()), "0")
			if ns == "" {
				ns = "0"
			}
			return fmt.Sprintf("unix:%d.%s", t.Unix(), ns)
		}
		return t.UTC().Format(time.RFC3339Nano)
	case strings.HasPrefix(f.K, "int"), f.K == "dur":
		return fmt.Sprint(v.Int())
	case strings.HasPrefix(f.K, "uint"):
		return fmt.Sprint(v.Uint())
	case f.K == "float32":
		return fmt.Sprint(ffmt32(v.Float()))
	case f.K == "float64":
		return ffmt(v.Float())
	case f.K == "file":
		h := v.Addr().Interface().(*multipart.FileHeader)
		return fmt.Sprintf("%s|%d|%s", h.Filename, h.Size, bContent(h))
	case strings.HasPrefix(f.K, "map"):
		if v.IsNil() {
			return "nil"
		}
		s := itoa(v.Len())
		for _, k := range bMapKeys {
			if x := v.MapIndex(reflect.ValueOf(k)); x.IsValid() {
				s += "|" + k + "=" + squeeze(fmt.Sprint(x.Interface()))
			}
		}
		return s
	case f.K == "any":
		if v.IsNil() {
			return "nil"
		}
		return "any:" + fmt.Sprint(v.Interface())
	}
	panic("harness: kind " + f.K)
}

var bMapKeys = []string{"a", "b", "B", "k"}

func bContent(h *multipart.FileHeader) string {
	f, err := h.Open()
	if err != nil {
		return "open: " + err.Error()
	}
	defer f.Close()
	b, err := io.ReadAll(f)
	if err != nil {
		return "read: " + err.Error()
	}
	return squeeze(fromBytes(b))
}
func bFlatBare(f *bField, v reflect.Value, path string) [][]string {
	if f.K == "struct" {
		return bFlatObj(f.Sub, v, path+".")
	}
	return [][]string{{path, bScalar(f, v)}}
}
func bFlat(f *bField, v reflect.Value, path string) [][]string {
	v = settable(v)
	ptr := f.P || f.K == "file"
	one := func(v reflect.Value, path string) [][]string {
		if ptr {
			if v.IsNil() {
				return [][]string{{path, "nil"}}
			}
			v = v.Elem()
		}
		return bFlatBare(f, v, path)
	}
	if !f.L {
		return one(v, path)
	}
	if f.A == 0 && v.IsNil() {
		return [][]string{{path, "#nil"}}
	}
	l := [][]string{{path, "#" + itoa(v.Len())}}
	for i := 0; i < v.Len(); i++ {
		l = append(l, one(v.Index(i), path+"."+itoa(i))...)
	}
	return l
}
func bFlatObj(fs []bField, v reflect.Value, path string) [][]string {
	l := [][]string{}
	for i := range fs {
		l = append(l, bFlat(&fs[i], v.Field(i), path+fs[i].N)...)
	}
	return l
}

// ---------------------------------------------------------------- requests

func bJSON(d *bDoc, b *bytes.Buffer, how int) {
	sp := []string{"", " ", "\n  "}[how%3]
	switch d.T {
	case "str":
		x := enc1(expand(d.S))
		if how%2 == 1 { // no escapes of < > &
			var t bytes.Buffer
			j := json.NewEncoder(&t)
			j.SetEscapeHTML(false)
			j.Encode(expand(d.S))
			x = t.Bytes()
		}
		b.Write(bytes.TrimSpace(x))
	case "num", "bool":
		b.WriteString(d.S)
	case "null":
		b.WriteString("null")
	case "obj":
		b.WriteString("{" + sp)
		for i := range d.O {
			if i > 0 {
				b.WriteString("," + sp)
			}
			b.Write(bytes.TrimSpace(enc1(d.O[i].N)))
			b.WriteString(":" + sp)
			bJSON(&d.O[i].V, b, how)
		}
		b.WriteString(sp + "}")
	case "arr":
		b.WriteString("[" + sp)
		for i := range d.A {
			if i > 0 {
				b.WriteString("," + sp)
			}
			bJSON(&d.A[i], b, how)
		}
		b.WriteString(sp + "]")
	}
}
func bXML(d *bDoc, name string, b *bytes.Buffer, how int) {
	if d.T == "arr" {
		for i := range d.A {
			bXML(&d.A[i], name, b, how)
		}
		return
	}
	if d.T == "str" && d.S == "" && how%2 == 0 {
		b.WriteString("<" + name + "/>")
		return
	}
	b.WriteString("<" + name + ">")
	if d.T == "obj" {
		for i := range d.O {
			if how%3 > 0 {
				b.WriteString("\n  ")
			}
			bXML(&d.O[i].V, d.O[i].N, b, how)
		}
		if how%3 > 0 {
			b.WriteString("\n")
		}
	} else if how%5 == 4 && !strings.Contains(d.S, "]]>") {
		b.WriteString("<![CDATA[" + expand(d.S) + "]]>")
	} else {
		xml.EscapeText(b, []byte(expand(d.S)))
	}
	b.WriteString("</" + name + ">")
}

func bReqOf(s *bScen) *http.Request {
	q := &s.Q
	var b bytes.Buffer
	ct := q.Ct
	bnd := "XbndX1234"
	switch q.Bk {
	case "url":
		b.WriteString(encPairs(q.Body, s.Enc/3))
	case "garb":
		b.WriteString("a=%zz&b")
	case "json":
		bJSON(&q.Doc, &b, s.Enc)
	case "xml":
		if s.Enc%4 == 1 {
			b.WriteString(xml.Header)
		}
		bXML(&q.Doc, "doc", &b, s.Enc)
	case "multi":
		mw := multipart.NewWriter(&b)
		mw.SetBoundary(bnd)
		esc := strings.NewReplacer("\\", "\\\\", `"`, "\\\"")
		for _, p := range q.Parts {
			h := textproto.MIMEHeader{}
			d := `form-data; name="` + esc.Replace(p.N) + `"`
			if p.File {
				d += `; filename="` + esc.Replace(p.Fname) + `"`
				h.Set("Content-Type", []string{"application/octet-stream", "text/plain", "image/png"}[s.Enc%3])
			}
			h.Set("Content-Disposition", d)
			w, err := mw.CreatePart(h)
			die(err)
			if p.File {
				w.Write(toBytes(expand(p.S)))
			} else {
				io.WriteString(w, expand(p.S))
			}
		}
		mw.Close()
	}
	body := b.Bytes()
	if q.Cut {
		n := 1
		if q.Bk == "multi" {
			n = 8
			if k := len(q.Parts); k > 0 && s.Enc%2 == 0 { // within the last part's content
				if c := len(toBytes(expand(q.Parts[k-1].S))); c > 1 && q.Parts[k-1].File {
					n = 17 + c/2
				}
			}
		}
		if n > len(body) {
			n = len(body)
		}
		body = body[:len(body)-n]
	}
	r := newReq(q.M, "/b", "1.1", bytes.NewReader(body))
	r.ContentLength = int64(len(body))
	if q.Bk == "none" {
		r.Body, r.ContentLength = http.NoBody, 0
	} else if q.Bk == "nil" {
		r.Body, r.ContentLength = nil, 0
	}
	r.URL.RawQuery = encPairs(q.Query, s.Enc)
	if q.Badq {
		if r.URL.RawQuery != "" {
			r.URL.RawQuery += "&"
		}
		r.URL.RawQuery += []string{"bad=%zz", "bad=1;2", "%q=1"}[s.Enc%3]
	}
	r.RequestURI = r.URL.RequestURI()
	if strings.HasPrefix(ct, "multipart/") {
		ct += []string{"; boundary=", ";boundary="}[s.Enc%2] + bnd
	}
	if ct != "" {
		r.Header.Set("Content-Type", ct)
	}
	for _, h := range q.Hs {
		r.Header.Add(h[0], h[1])
	}
	return r
}

var bBinders = map[string]binding.Bindinger{
	"form": binding.Form, "formpost": binding.FormPost, "multipart": binding.FormMultipart, "query": binding.Query, "header": binding.Header,
	"json": binding.JSON, "xml": binding.XML,
}

func bindExec(e *Env, raw json.RawMessage) (interface{}, error) {
	var s bScen
	if err := dec(raw, &s); err != nil {
		return nil, err
	}
	time.Local = time.FixedZone("here", -3600)
	os.Setenv("TMPDIR", e.Scratch)
	os.Setenv("ZONEINFO", e.Scratch)
	s.Obs = []bObs{}
	bSetRel(s.Via)
	st := catTypes[s.Cat]
	if s.Cat == "" {
		st = bType(s.Fs)
	}
	once := func(req *http.Request, c *water.Context, ask bool) {
		o := bObs{Val: [][]string{}, Files: []bNV{}, M: []bNVs{}}
		var t reflect.Type
		switch s.Top {
		case "struct":
			t = st
		case "list":
			t = reflect.SliceOf(st)
			if s.An > 0 {
				t = reflect.ArrayOf(s.An, st)
			}
		case "plist":
			t = reflect.SliceOf(reflect.PtrTo(st))
			if s.An > 0 {
				t = reflect.ArrayOf(s.An, reflect.PtrTo(st))
			}
		case "nilobj", "intp":
			t = bKinds["int"]
		case "value":
			t = st
		case "mapint", "mapints":
			t = bKinds["mapi"]
			if s.Top == "mapints" {
				t = reflect.TypeOf(map[string][]int{})
			}
		case "mapstr":
			t = reflect.TypeOf(map[string]string{})
		case "maplist":
			t = reflect.TypeOf(map[string][]string{})
		}
		v := reflect.New(t)
		if t.Kind() == reflect.Map && strings.HasPrefix(s.Via, "2") {
			v.Elem().Set(reflect.MakeMap(t))
		}
		if s.Top == "struct" {
			for i := range s.Fs {
				bStart(&s.Fs[i], v.Elem().Field(i))
			}
		}
		obj := v.Interface()
		if s.Top == "nilobj" {
			obj = nil
		} else if s.Top == "value" {
			obj = v.Elem().Interface()
		}
		o.Panic = caught(func() {
			var err error
			switch {
			case s.Via == "uri":
				m := map[string][]string{}
				for _, p := range s.Q.Uri {
					m[p[0]] = append(m[p[0]], p[1])
				}
				err = binding.Uri.Bind(m, obj)
			case s.Via == "2uri":
				m := map[string][]string{}
				for _, p := range s.Q.Uri {
					m[p[0]] = append(m[p[0]], p[1])
				}
				err = binding.Uri.Bind2(m, obj)
			case strings.HasPrefix(s.Via, "2"):
				err = map[string]func(*http.Request, interface{}) error{"2form": binding.Form.Bind2, "2formpost": binding.FormPost.Bind2,
					"2multipart": binding.FormMultipart.Bind2, "2query": binding.Query.Bind2, "2header": binding.Header.Bind2}[s.Via](req, obj)
			case s.Direct && s.Via == "auto":
				x := req.Header.Get("Content-Type")
				if i := strings.IndexAny(x, " ;"); i >= 0 {
					x = x[:i]
				}
				err = binding.NewBindinger(req.Method, x).Bind(req, obj)
			case s.Direct:
				err = bBinders[s.Via].Bind(req, obj)
			case s.Via == "auto":
				err = c.Bind(obj)
			default:
				err = c.BindWith(obj, bBinders[s.Via])
			}
			o.Err = err != nil
		})
		if o.Panic == "" {
			o.Panic = caught(func() {
				switch m := obj.(type) {
				case *map[string]string:
					for k, x := range *m {
						o.M = append(o.M, bNVs{N: k, V: []string{x}})
					}
				case *map[string][]string:
					for k, x := range *m {
						o.M = append(o.M, bNVs{N: k, V: x})
					}
				default:
					if o.Err || bNoTarget[s.Top] {
						break
					}
					if s.Top == "struct" {
						o.Val = bFlatObj(s.Fs, v.Elem(), "")
					} else {
						f := bField{K: "struct", L: true, P: s.Top == "plist", Sub: s.Fs, A: s.An}
						o.Val = bFlat(&f, v.Elem(), "")
					}
				}
			})
		}
		if ask && o.Panic == "" {
			o.Panic = caught(func() {
				for i, n := range s.Names {
					x := bNV{N: n, V: "none"}
					var h *multipart.FileHeader
					var f multipart.File
					var err error
					if c != nil {
						f, h, err = c.FormFile(n)
					} else {
						f, h, err = req.FormFile(n)
					}
					if err == nil {
						b, _ := io.ReadAll(f)
						f.Close()
						x.V = fmt.Sprintf("%s|%d|%s", h.Filename, h.Size, squeeze(fromBytes(b)))
						if c != nil {
							dst := filepath.Join(e.Scratch, "saved")
							os.Remove(dst)
							if (s.Enc+i)%2 == 0 { // there is a longer file already
								os.WriteFile(dst, make([]byte, len(b)+10), 0600)
							}
							open := openUnder(e.Scratch)
							if err := c.SaveUploadedFile(h, dst); err != nil {
								x.Saved = "error: " + err.Error()
							} else if openUnder(e.Scratch) > open {
								x.Saved = "files left open"
							} else {
								b, _ := os.ReadFile(dst)
								x.Saved = squeeze(fromBytes(b))
							}
							os.Remove(dst)
							open = openUnder(e.Scratch)
							if err := c.SaveUploadedFile(h, filepath.Join(e.Scratch, "no", "where")); err == nil {
								x.Bad = "no error"
							} else if openUnder(e.Scratch) > open {
								x.Bad = "files left open"
							}
							// a device that is full (or, if the link is replaced, the whole file in its place)
							dst = filepath.Join(e.Scratch, "full")
							os.Remove(dst)
							if os.Symlink("/dev/full", dst) != nil {
								x.Bad = "something else is there"
							} else if err := c.SaveUploadedFile(h, dst); err == nil && len(b) > 0 {
								fi, err := os.Lstat(dst)
								if err != nil || !fi.Mode().IsRegular() || fi.Size() != int64(len(b)) {
									x.Bad = "no error though the device is full"
								}
							}
							os.Remove(dst)
						} else {
							x.Saved = squeeze(fromBytes(b))
						}
					}
					o.Files = append(o.Files, x)
				}
			})
		}
		s.Obs = append(s.Obs, o)
	}
	req := bReqOf(&s)
	run := func(c *water.Context) {
		r := req
		if c != nil {
			r = c.Request
		}
		once(r, c, !s.Twice)
		if s.Twice {
			once(r, c, true)
		}
		if r.MultipartForm != nil {
			r.MultipartForm.RemoveAll()
		}
	}
	if s.Direct {
		binding.SetMultipartMemory(s.Mem)
		run(nil)
	} else {
		r := water.NewRouter()
		for _, m := range allMethods {
			regAs(r, m, "/b", run)
		}
		r.Handler(water.WithMaxMultipartMemory(s.Mem)).ServeHTTP(newRec(), req)
		if len(s.Obs) == 0 {
			s.Obs = append(s.Obs, bObs{Panic: "no handler ran", Val: [][]string{}, Files: []bNV{}, M: []bNVs{}})
		}
	}
	count("via_" + s.Via)
	count("top_" + s.Top)
	if s.Obs[0].Err {
		count("errors")
	} else {
		count("bound")
	}
	return s, nil
}

// ---------------------------------------------------------------- generation

type bGen struct {
	r      *rand.Rand
	e      *Env
	src    string // form, header, uri, json, xml
	n      int
	used   []string
	share  []string // may name another field too
	rich   bool     // many kinds
	rules  bool
	files  bool
	gin    bool // for Bind2
	inText bool // a document within a text: bound over what is there
	jt     []bText
}

var bNums = []string{"int", "int8", "int16", "int32", "int64", "uint", "uint8", "uint16", "uint32", "uint64", "float32", "float64"}

func bNumeric(k string) bool {
	return strings.HasPrefix(k, "int") || strings.HasPrefix(k, "uint") || strings.HasPrefix(k, "float")
}

func (g *bGen) doc() bool { return g.src == "json" || g.src == "xml" }

func (g *bGen) kind() string {
	r := g.r
	if g.files && r.Intn(3) == 0 {
		return "file"
	}
	if !g.rules && r.Intn(12) == 0 {
		return "dur"
	}
	if g.src != "xml" && r.Intn(14) == 0 {
		return pick(r, "maps", "mapi")
	}
	switch r.Intn(8) {
	case 0, 1:
		return "string"
	case 2:
		return "bool"
	case 3:
		if g.rich || r.Intn(3) == 0 {
			return "time"
		}
		return "int"
	case 4:
		if g.rich && !g.doc() && r.Intn(6) == 0 {
			return "any"
		}
	}
	return bNums[r.Intn(len(bNums))]
}

func (g *bGen) name(k string) string {
	g.n++
	b := pick(g.r, "a", "b", "name", "x-y", "k")
	if g.doc() {
		b = pick(g.r, "a", "b", "name", "k")
	} else if g.src == "form" {
		b = pick(g.r, "a", "b", "name", "x-y", "k.l", "m[n]", "日", "o p")
	} else if g.src == "header" {
		b = pick(g.r, "x-a", "X-B", "Name", "xY", "X-LONG-name")
	}
	// mostly unique; form-like sources may share a name
	plain := k == "string" || k == "bool" || k == "time" || strings.HasPrefix(k, "int") || strings.HasPrefix(k, "uint")
	if !g.doc() && plain && len(g.share) > 0 && g.r.Intn(8) == 0 {
		return g.share[g.r.Intn(len(g.share))]
	}
	b += itoa(g.n)
	g.used = append(g.used, b)
	if plain || k == "file" {
		g.share = append(g.share, b)
	}
	return b
}

func (g *bGen) field(depth int, i int, pre string) bField {
	r := g.r
	f := bField{N: pre + itoa(i), Ex: true, R: []bRule{}, Sub: []bField{}}
	if depth > 0 && r.Intn(4) == 0 {
		f.K = "struct"
		f.P = r.Intn(2) == 0
		f.E = r.Intn(2) == 0
		if f.E {
			f.N = "E" + f.N
		}
		f.Sub = g.fields(depth-1, 1+r.Intn(3), f.N+"x")
		f.Pre = f.P && r.Intn(2) == 0
		if !f.E && g.doc() {
			f.L = r.Intn(3) == 0
			f.Pre = f.Pre && !f.L
			f.T = g.name(f.K)
			g.array(&f)
		} else if !f.E {
			switch r.Intn(5) {
			case 0:
				f.T = "-"
			case 1:
				f.T = g.name(f.K)
			}
		} else if r.Intn(6) == 0 {
			f.T = "-"
		}
		if f.A > 0 {
			if g.rules && r.Intn(3) > 0 {
				f.R = append(f.R, bRule{"dive", ""})
			}
		} else if f.L && g.rules && r.Intn(2) == 0 {
			f.R = append(f.R, bRule{pick(g.r, "min", "max", "required"), ""})
			if f.R[0].R != "required" {
				f.R[0].P = itoa(r.Intn(3))
			}
			f.R = append(f.R, bRule{"dive", ""})
		} else if f.L && g.rules && r.Intn(2) == 0 {
			f.R = append(f.R, bRule{"dive", ""})
		}
		return f
	}
	f.K = g.kind()
	if f.K == "file" {
		f.T = g.name(f.K)
		f.L = r.Intn(3) == 0
		f.P = !f.L
		g.array(&f)
		return f
	}
	if f.K == "any" {
		f.T = g.name(f.K)
		return f
	}
	if r.Intn(12) == 0 && (f.K == "string" || f.K == "int") {
		f.Ex = false
		f.N = "u" + strings.ToLower(f.N)
		if g.src == "xml" { // the decoder refuses nothing, it ignores them
			f.T = ""
		} else {
			f.T = g.name(f.K)
		}
		return f
	}
	f.P = r.Intn(4) == 0
	f.L = r.Intn(4) == 0
	isMap := strings.HasPrefix(f.K, "map")
	f.P = f.P && !isMap
	if f.L && f.K == "uint8" { // []byte is not a list of numbers in documents
		f.L = !g.doc()
	}
	f.Pre = r.Intn(3) == 0 && !(isMap && f.L)
	g.array(&f)
	switch r.Intn(10) {
	case 0:
		if g.doc() { // under its own name
			g.n++
		}
	case 1:
		f.T = "-"
	default:
		f.T = g.name(f.K)
	}
	if f.K == "time" && !g.doc() {
		f.Tf = pick(r, "", "", "date", "unix", "unixnano")
		f.Tz = pick(r, "", "", "utc", "bad")
		if f.Tf == "" && f.Tz == "bad" && r.Intn(2) == 0 {
			f.Tz = ""
		}
	}
	if !g.doc() && r.Intn(3) == 0 {
		f.D = strings.ReplaceAll(g.text(&f, 8), ",", "")
		if f.T == "" && r.Intn(2) == 0 || f.T == "-" && g.gin {
			f.D = ""
		}
	}
	if g.rules {
		f.R = g.ruleFor(&f)
	}
	return f
}

// array makes some lists arrays.
func (g *bGen) array(f *bField) {
	if f.L && g.src != "xml" && g.r.Intn(4) == 0 {
		f.A, f.Pre = 1+g.r.Intn(3), false
	}
}

func (g *bGen) ruleFor(f *bField) []bRule {
	r := g.r
	rs := []bRule{}
	if r.Intn(4) == 0 {
		return rs
	}
	if strings.HasPrefix(f.K, "map") {
		if f.L {
			return rs
		}
		if r.Intn(2) == 0 {
			rs = append(rs, bRule{pick(r, "required", "omitempty"), ""})
		}
		if len(rs) == 0 || r.Intn(2) == 0 {
			rs = append(rs, bRule{pick(r, "min", "max", "len", "gt", "lt", "gte", "lte"), itoa(r.Intn(3))})
		}
		return rs
	}
	scalar := func() []bRule {
		l := []bRule{}
		if r.Intn(4) == 0 {
			l = append(l, bRule{"omitempty", ""})
		} else if r.Intn(3) == 0 {
			l = append(l, bRule{"required", ""})
		}
		for x := []int{0, 1, 1, 2}[r.Intn(4)]; x > 0; x-- {
			switch {
			case f.K == "string":
				c := pick(r, "min", "max", "len", "gt", "lt", "gte", "lte", "eq", "ne", "oneof")
				switch c {
				case "eq", "ne":
					l = append(l, bRule{c, pick(r, "red", "blue", "pre")})
				case "oneof":
					l = append(l, bRule{c, pick(r, "red blue", "pre", "red pre green")})
				default:
					l = append(l, bRule{c, itoa(r.Intn(6))})
				}
			case strings.HasPrefix(f.K, "int"):
				c := pick(r, "min", "max", "len", "gt", "lt", "gte", "lte", "eq", "ne", "oneof")
				if c == "oneof" {
					l = append(l, bRule{c, pick(r, "1 7", "7", "-1 0 1")})
				} else {
					l = append(l, bRule{c, pick(r, "0", "1", "5", "7", "10", "-1", "-5", "127")})
				}
			case strings.HasPrefix(f.K, "uint"):
				c := pick(r, "min", "max", "len", "gt", "lt", "gte", "lte", "eq", "ne", "oneof")
				if c == "oneof" {
					l = append(l, bRule{c, pick(r, "1 7", "7", "2 0 1")})
				} else {
					l = append(l, bRule{c, pick(r, "0", "1", "5", "7", "10", "255")})
				}
			case f.K == "float64" || f.K == "float32":
				l = append(l, bRule{pick(r, "min", "max", "len", "gt", "lt", "gte", "lte", "eq", "ne"), pick(r, "0", "1", "2.5", "7", "-0.5")})
			}
		}
		return l
	}
	if !f.L {
		return scalar()
	}
	if f.A > 0 {
		if in := scalar(); len(in) > 0 && f.K != "time" {
			rs = append(append(rs, bRule{"dive", ""}), in...)
		}
		return rs
	}
	if r.Intn(3) == 0 {
		rs = append(rs, bRule{pick(r, "required", "omitempty"), ""})
	}
	if r.Intn(2) == 0 {
		rs = append(rs, bRule{pick(r, "min", "max", "min", "max", "len", "gt", "lt", "gte", "lte"), itoa(r.Intn(4))})
	}
	if r.Intn(2) == 0 && f.K != "time" {
		if in := scalar(); len(in) > 0 {
			rs = append(append(rs, bRule{"dive", ""}), in...)
		}
	}
	return rs
}

func (g *bGen) fields(depth, n int, pre string) []bField {
	l := []bField{}
	for i := 0; i < n; i++ {
		l = append(l, g.field(depth, i, pre))
	}
	return l
}

// text makes a text for the field; in good of ten cases a sensible one.
func (g *bGen) text(f *bField, good int) string {
	r := g.r
	if r.Intn(14) == 0 && good < 9 && !(g.gin && f.K == "dur") {
		return ""
	}
	ok := r.Intn(10) < good
	switch {
	case f.K == "string":
		if g.rules || len(f.R) > 0 {
			return pick(r, "red", "blue", "pre", "x", "abcdef", "green")
		}
		if ok {
			return pick(r, "x", "text", "red", "1")
		}
		if g.src == "header" {
			return pick(r, "a b", "x,y", "v=1;w")
		}
		return pick(r, "a b", "日本語", "a+b", "100%", " pad ", "a,b", "é", "{}", "null", "a&b=c")
	case f.K == "bool":
		if ok {
			return pick(r, "true", "false", "1", "0", "T", "F", "t", "f", "TRUE", "FALSE", "True", "False")
		}
		return pick(r, "yes", "2", "tRUE", "x", " true", "on", "off", "Yes", "no", "true ", "01", "y", "-1")
	case f.K == "time":
		if ok {
			switch f.Tf {
			case "":
				return pick(r, "2021-03-04T05:06:07Z", "2021-03-04T05:06:07+02:00", "2024-02-29T23:59:59.5Z", "1969-12-31T23:59:59Z")
			case "date":
				return pick(r, "2021-03-04", "2024-02-29", "1970-01-01", "9999-12-31")
			case "unix":
				return pick(r, "0", "1", "1600000000", "-1", "+5", "253402300799", "99999999999", "-1600000000")
			}
			return pick(r, "0", "1", "999999999", "1000000000", "1600000000000000001", "1600000000123456000")
		}
		return pick(r, "x", "2021-13-04", "2021-03-04T05:06:07", "2023-02-29", "9223372036854775808", "1.5", "2021-03-04 05:06:07", "2021-03-04")
	case f.K == "dur":
		if g.gin {
			return pick(r, "1s", "1h30m", "-1.5ms", "0", "7ns", "2us", "1s", "5", "x", "1 s")
		}
		return pick(r, "0", "7", "-5", "1000000000", "1s", "x")
	case strings.HasPrefix(f.K, "map"):
		if r.Intn(12) < good+2 {
			g2 := *g
			g2.src, g2.inText = "json", true
			x := *f
			x.L = false
			d := g2.docOf(&x, true)
			var b bytes.Buffer
			bJSON(&d, &b, r.Intn(3))
			g.jt = append(g.jt, bText{b.String(), d})
			return b.String()
		}
		return pick(r, "{}", "x", "[]", "{", "null", "7", "a=b", "{\"a\":}")
	case f.K == "struct":
		if bJSONable(f.Sub, map[string]bool{}) && r.Intn(4) > 0 {
			g2 := *g
			g2.src, g2.inText = "json", true
			d := g2.docOf(&bField{K: "struct", Sub: f.Sub}, true)
			var b bytes.Buffer
			bJSON(&d, &b, r.Intn(3))
			g.jt = append(g.jt, bText{b.String(), d})
			return b.String()
		}
		return pick(r, "{}", "x", "[]", "{", "null")
	case f.K == "file" || f.K == "any":
		return pick(r, "x", "", "{}", "{\"Filename\":\"x\"}")
	case len(f.R) > 0 || (g.rules && !g.doc()):
		if strings.HasPrefix(f.K, "float") {
			return pick(r, "0", "1", "2.5", "7", "-0.5", "7.25", "3", "100")
		}
		if strings.HasPrefix(f.K, "uint") && r.Intn(20) > 0 {
			return pick(r, "0", "1", "5", "7", "10", "127", "255", "2", "6")
		}
		return pick(r, "0", "1", "5", "7", "10", "127", "255", "2", "-1", "-5", "300", "6")
	}
	if ok {
		return pick(r, "0", "1", "7", "42", "100")
	}
	if r.Intn(2) == 0 { // about the bounds of the field's type
		l := map[string][]string{
			"int8": {"127", "128", "-128", "-129"}, "uint8": {"255", "256", "-1"}, "int16": {"32767", "32768", "-32768", "-32769"}, "uint16": {"65535", "65536"},
			"int32": {"2147483647", "2147483648", "-2147483649"}, "uint32": {"4294967295", "4294967296"},
			"int64": {"9223372036854775807", "9223372036854775808", "-9223372036854775809"}, "int": {"9223372036854775807", "9223372036854775808", "4294967296"},
			"uint64": {"18446744073709551615", "18446744073709551616"}, "uint": {"18446744073709551615", "18446744073709551616", "-0"},
			"float32": {"1e39", "1e400"}, "float64": {"1e39", "1e400"}}[f.K]
		if len(l) > 0 {
			return pick(r, l...)
		}
	}
	if strings.Contains(f.K, "int") && r.Intn(3) == 0 { // what other languages read as a number
		return pick(r, "010", "0x1F", "0x10", "1_000", "0b1", "0o7", " 5", "5 ", "+5", "1e3", "5.0", "1,000", "0010", "-010", "5\n", "٣")
	}
	t := numText(r)
	for strings.HasPrefix(f.K, "float") && !floatSafe(t) {
		t = numText(r)
	}
	if f.K == "float32" && strings.ContainsAny(t, "0123456789") && len(t) > 6 && !strings.ContainsAny(t, "ex") {
		t = "2.5"
	}
	return t
}

// bJSONable: a JSON text for such fields is unambiguous.
func bJSONable(fs []bField, seen map[string]bool) bool {
	for i := range fs {
		f := &fs[i]
		n := strings.ToLower(f.T)
		if n == "" {
			n = strings.ToLower(f.N)
		}
		if f.K == "file" || f.K == "any" || f.Tf != "" || f.E || seen[n] || f.L && (f.K == "uint8" || f.K == "struct" || strings.HasPrefix(f.K, "map")) || !bJSONable(f.Sub, map[string]bool{}) {
			return false
		}
		seen[n] = n != "-"
	}
	return true
}

// xmlText: the decoder trims numbers and booleans.
func (g *bGen) docOf(f *bField, elem bool) bDoc {
	r := g.r
	d := bDoc{O: []bMember{}, A: []bDoc{}}
	if f.L && !elem {
		d.T = "arr"
		if g.src == "json" && r.Intn(12) == 0 {
			return g.wrong(f)
		}
		for x := r.Intn(4); x > 0; x-- {
			if g.src == "json" && !f.Pre && !g.inText && r.Intn(6) == 0 {
				d.A = append(d.A, bDoc{T: "null", O: []bMember{}, A: []bDoc{}})
				continue
			}
			d.A = append(d.A, g.docOf(f, true))
		}
		if g.src == "xml" && len(d.A) == 0 {
			d.A = append(d.A, g.docOf(f, true))
		}
		if len(d.A) > 0 && (g.rules && r.Intn(6) == 0 || r.Intn(20) == 0) {
			a := d.A[0]
			for x := 2 + r.Intn(8); x > 0; x-- {
				d.A = append([]bDoc{a}, d.A...)
			}
		}
		return d
	}
	if g.src == "json" && !elem && r.Intn(12) == 0 && (f.P || f.L) {
		d.T = "null"
		return d
	}
	if g.src == "json" && r.Intn(15) == 0 {
		return g.wrong(f)
	}
	switch {
	case f.K == "struct":
		d.T = "obj"
		d.O = g.members(f.Sub)
	case strings.HasPrefix(f.K, "map"):
		d.T = "obj"
		for x := r.Intn(4); x > 0; x-- {
			v := bDoc{T: "str", S: pick(r, "x", "red", "", "a b", "pre"), O: []bMember{}, A: []bDoc{}}
			if f.K == "mapi" {
				v.T, v.S = "num", pick(r, "0", "1", "7", "-5", "9223372036854775807")
				if r.Intn(12) == 0 {
					v.S = pick(r, "9223372036854775808", "1.5")
				}
			}
			if r.Intn(15) == 0 {
				v.T, v.S = pick(r, "null", "null", "bool"), "true"
			}
			d.O = append(d.O, bMember{pick(r, bMapKeys...), v})
		}
	case f.K == "string":
		d.T, d.S = "str", g.text(f, 5)
		if g.src == "json" && r.Intn(6) == 0 && len(f.R) == 0 && !g.rules {
			d.S = pick(r, "<x>", "a\"b", "tab\tnew\nline", "\\", "~~400;")
		}
	case f.K == "dur" && g.src == "xml":
		d.T, d.S = "str", pick(r, "0", "7", "-5", "1000000000", "1s")
	case f.K == "time":
		d.T, d.S = "str", pick(r, "2021-03-04T05:06:07Z", "2021-03-04T05:06:07+02:00", "2024-02-29T23:59:59.5Z", "1969-12-31T23:59:59Z", "x", "2021-03-04")
	case g.src == "xml":
		d.T, d.S = "str", g.text(f, 6)
		if r.Intn(6) == 0 && d.S != "" {
			d.S = " " + d.S + "\n"
		}
	case f.K == "bool":
		d.T, d.S = "bool", pick(r, "true", "false")
	case f.K == "dur":
		d.T, d.S = "num", pick(r, "0", "7", "-5", "1000000000", "1.5")
	default:
		d.T = "num"
		d.S = pick(r, "0", "1", "5", "7", "10", "100", "127", "128", "255", "256", "-1", "-128", "-129", "65535", "65536", "32768", "2147483648", "4294967295", "4294967296",
			"9223372036854775807", "9223372036854775808", "-9223372036854775808", "18446744073709551615", "18446744073709551616", "1.5")
		if strings.HasPrefix(f.K, "float") {
			d.S = pick(r, "0", "1", "2.5", "7", "-0.5", "100", "0.25")
		} else if len(f.R) > 0 && r.Intn(4) > 0 {
			d.S = g.text(f, 6)
			if d.S == "" || d.S == "x" {
				d.S = "7"
			}
		}
	}
	return d
}

// wrong: a JSON value of another type than the field's.
func (g *bGen) wrong(f *bField) bDoc {
	d := bDoc{O: []bMember{}, A: []bDoc{}}
	switch g.r.Intn(4) {
	case 0:
		d.T, d.S = "str", "red"
	case 1:
		d.T, d.S = "num", "7"
	case 2:
		d.T, d.S = "bool", "true"
	case 3:
		d.T = "obj"
	}
	return d
}

func (g *bGen) members(fs []bField) []bMember {
	r := g.r
	l := []bMember{}
	for i := range fs {
		f := &fs[i]
		if f.E && f.K == "struct" && f.T == "" {
			l = append(l, g.members(f.Sub)...)
			continue
		}
		if r.Intn(4) == 0 {
			continue
		}
		n := f.T
		if n == "" || n == "-" {
			n = f.N
		}
		if !f.Ex && g.src == "xml" && f.T == "" {
			n = f.N
		}
		l = append(l, bMember{n, g.docOf(f, false)})
	}
	if r.Intn(4) == 0 {
		l = append(l, bMember{"other", bDoc{T: "str", S: "v", O: []bMember{}, A: []bDoc{}}})
	}
	r.Shuffle(len(l), func(a, b int) { l[a], l[b] = l[b], l[a] })
	return l
}

// pairsFor makes the pairs of a form-like source.
func (g *bGen) pairsFor(fs []bField, good int) [][]string {
	r := g.r
	l := [][]string{}
	var walk func(fs []bField)
	walk = func(fs []bField) {
		for i := range fs {
			f := &fs[i]
			n := f.T
			if n == "" || n == "-" {
				n = f.N
				if r.Intn(3) > 0 && !(g.gin && n == "") {
					n = ""
				}
			}
			if n != "" && r.Intn(4) > 0 {
				if g.src == "header" && r.Intn(2) == 0 {
					n = strings.ToLower(n)
				}
				k := 1
				if f.L || r.Intn(6) == 0 {
					k = 1 + r.Intn(3)
				}
				if f.A > 0 && r.Intn(4) > 0 {
					k = f.A
				}
				if f.L && f.A == 0 && f.K != "file" && r.Intn(16) == 0 { // a long list
					t := []string{g.text(f, good), g.text(f, good)}
					for k = 10 + r.Intn(60); k > 0; k-- {
						l = append(l, []string{n, t[r.Intn(2)]})
					}
				}
				if f.K != "file" || r.Intn(3) == 0 {
					for ; k > 0; k-- {
						l = append(l, []string{n, g.text(f, good)})
					}
				}
			}
			if f.K == "struct" {
				walk(f.Sub)
			}
		}
	}
	walk(fs)
	if r.Intn(4) == 0 {
		l = append(l, []string{"other", "v"})
	}
	r.Shuffle(len(l), func(a, b int) { l[a], l[b] = l[b], l[a] })
	return l
}

func (g *bGen) parts(fs []bField, good int, mem int64) []bPart {
	r := g.r
	l := []bPart{}
	for _, p := range g.pairsFor(fs, good) {
		l = append(l, bPart{N: p[0], S: p[1]})
	}
	names := g.used
	for x := r.Intn(4); x > 0 && len(names) > 0; x-- {
		if !g.files && r.Intn(4) > 0 {
			continue
		}
		n := names[r.Intn(len(names))]
		if g.files && r.Intn(4) > 0 { // of a file field
			var fn []string
			var walk func(fs []bField)
			walk = func(fs []bField) {
				for i := range fs {
					if fs[i].K == "file" {
						fn = append(fn, fs[i].T)
					}
					walk(fs[i].Sub)
				}
			}
			walk(fs)
			if len(fn) > 0 {
				n = fn[r.Intn(len(fn))]
			}
		}
		if g.files && r.Intn(12) == 0 { // and many more
			for y := 4 + r.Intn(16); y > 0; y-- {
				l = append(l, bPart{N: n, File: true, Fname: "m" + itoa(y) + ".txt", S: "many" + itoa(y), Z: len("many" + itoa(y))})
			}
		}
		p := bPart{N: n, File: true, Fname: pick(r, "f.txt", "日本.png", "a b.bin", `q"uote.txt`, "semi;colon", "x", "back\\slash", "..", "a=b", "%41", "noext")}
		switch r.Intn(6) {
		case 0:
			p.S = ""
		case 1:
			p.S = "~~" + itoa([]int{400, 5000, 100000}[r.Intn(3)]) + ";"
		case 2:
			p.S = "a\x00\x01\r\n\u00ff\u0080z--XbndX1234"
		case 3:
			p.S = strings.Repeat("c", int(mem%2000)+r.Intn(3))
			if mem > 1000 {
				p.S = "near"
			}
		default:
			p.S = pick(r, "content", "line1\r\nline2\r\n", "x")
		}
		if r.Intn(10) == 0 { // an empty file input
			p.Fname, p.S = "", ""
		}
		p.Z = len([]rune(expand(p.S)))
		l = append(l, p)
	}
	r.Shuffle(len(l), func(a, b int) { l[a], l[b] = l[b], l[a] })
	return l
}

func bindGen(e *Env) []interface{} {
	r := e.R
	out := []interface{}{}
	for i := 0; i < e.N; i++ {
		s := bScen{Id: "b" + itoa(i), Names: []string{}, Mem: []int64{1, 64, 1000, 1 << 20, 32 << 20}[r.Intn(5)], Enc: r.Intn(60), Top: "struct"}
		q := &s.Q
		*q = bReq{Query: [][]string{}, Body: [][]string{}, Parts: []bPart{}, Hs: [][]string{}, Uri: [][]string{}, Jt: []bText{}, Bk: "none", Doc: bDoc{T: "null", O: []bMember{}, A: []bDoc{}}}
		g := &bGen{r: r, e: e}
		depth, nf, good := 1, 1+r.Intn(4), 8
		via := "auto"
		src := ""
		switch e.Profile {
		case "B01":
			src = pick(r, "form", "form", "multi", "json", "json", "xml", "query", "header", "uri")
			good = 9
			nf = 1 + r.Intn(3)
		case "B02":
			src = pick(r, "form", "form", "form", "multi", "query", "header", "uri")
			g.rich = true
			depth = 2
			good = 9
			if r.Intn(3) == 0 { // one field only, near its limits
				depth, nf, good = 0, 1, 2
			}
		case "B03":
			src = pick(r, "form", "multi", "query", "header", "uri", "json", "json", "json", "xml")
			g.rules = true
			depth, nf, good = r.Intn(3), 1+r.Intn(2), 10
		case "B04":
			src = "multi"
			g.files = true
		case "B05":
			src = pick(r, "form", "form", "multi", "multi", "query", "header", "uri")
			g.rich = true
			g.gin = true
			g.files = src == "multi" && r.Intn(2) == 0
			g.rules = r.Intn(5) == 0
			depth = 2
			good = 9
			if r.Intn(4) == 0 {
				depth, nf, good = 0, 1, 3
			}
		}
		g.src = map[string]string{"query": "form", "multi": "form"}[src]
		if g.src == "" {
			g.src = src
		}
		fs := g.fields(depth, nf, "F")
		if cat := catAll; e.Profile != "B03" && r.Intn(10) == 0 {
			if src == "json" {
				cat = catJSON
			} else if src == "xml" {
				cat = catXML
			}
			s.Cat = pick(r, cat...)
			fs = catFields(catTypes[s.Cat])
			g.catPre(fs, catTypes[s.Cat])
			g.used, g.share = []string{"a", "b", "c", "d", "e", "f"}, nil
		} else if e.Profile == "B03" && r.Intn(8) == 0 {
			s.Cat = pick(r, catSame...)
			fs = catFields(catTypes[s.Cat])
			g.used, g.share = []string{"a", "b", "c", "d"}, nil
		}
		s.Fs = fs
		// a request that carries it
		switch src {
		case "form":
			via = pick(r, "auto", "auto", "form", "formpost")
			q.M = pick(r, "GET", "GET", "POST", "POST", "PUT", "PATCH", "DELETE", "HEAD")
			q.Query = g.pairsFor(fs, good)
			if q.M != "GET" && q.M != "DELETE" && q.M != "HEAD" {
				q.Ct = pick(r, "application/x-www-form-urlencoded", "application/x-www-form-urlencoded; charset=utf-8", "APPLICATION/X-WWW-form-urlencoded", "text/plain", "")
				q.Bk = "url"
				q.Body = g.pairsFor(fs, good)
				if r.Intn(2) == 0 {
					q.Query = [][]string{}
				}
			}
		case "multi":
			via = pick(r, "auto", "auto", "auto", "multipart", "form")
			q.M = pick(r, "POST", "POST", "PUT", "PATCH")
			q.Ct = "multipart/form-data"
			q.Bk = "multi"
			q.Parts = g.parts(fs, good, s.Mem)
			if r.Intn(4) == 0 {
				q.Query = g.pairsFor(fs, good)
			}
		case "query":
			via = "query"
			q.M = pick(r, "GET", "POST", "DELETE")
			q.Query = g.pairsFor(fs, good)
		case "header":
			via = "header"
			q.M = pick(r, "GET", "POST")
			q.Hs = g.pairsFor(fs, good)
		case "uri":
			via, s.Direct, q.M = "uri", true, "GET"
			q.Uri = g.pairsFor(fs, good)
		case "json", "xml":
			via = pick(r, "auto", "auto", src)
			q.M = pick(r, "POST", "POST", "PUT", "PATCH", "DELETE", "OPTIONS")
			q.Ct = map[string]string{"json": pick(r, "application/json", "application/json; charset=utf-8", "application/json;x=y"),
				"xml": pick(r, "application/xml", "text/xml", "text/xml; charset=utf-8")}[src]
			q.Bk = src
			q.Doc = bDoc{T: "obj", O: g.members(fs), A: []bDoc{}}
			if src == "json" && (e.Profile == "B03" && r.Intn(3) == 0 || r.Intn(10) == 0) {
				s.Top = pick(r, "list", "plist")
				q.Doc = bDoc{T: "arr", O: []bMember{}, A: []bDoc{}}
				bNoPre(fs)
				for x := r.Intn(4); x > 0; x-- {
					if r.Intn(5) == 0 {
						q.Doc.A = append(q.Doc.A, bDoc{T: "null", O: []bMember{}, A: []bDoc{}})
					} else {
						q.Doc.A = append(q.Doc.A, bDoc{T: "obj", O: g.members(fs), A: []bDoc{}})
					}
				}
				if n := len(q.Doc.A); n > 0 && e.Profile == "B03" && r.Intn(3) == 0 { // a long list, the last element apart
					a := q.Doc.A[0]
					for x := 2 + r.Intn(12); x > 0; x-- {
						q.Doc.A = append([]bDoc{a}, q.Doc.A...)
					}
				}
				if r.Intn(4) == 0 {
					s.An = 1 + r.Intn(4)
				}
				if r.Intn(8) == 0 {
					q.Doc = bDoc{T: pick(r, "null", "obj"), O: []bMember{}, A: []bDoc{}}
				}
			} else if src == "json" && r.Intn(12) == 0 {
				q.Doc = bDoc{T: pick(r, "null", "arr", "str", "num"), S: "7", O: []bMember{}, A: []bDoc{}}
			}
		}
		// cross it with another selection
		if e.Profile == "B01" {
			if r.Intn(3) == 0 {
				q.M = pick(r, "GET", "HEAD", "POST", "PUT", "PATCH", "DELETE", "OPTIONS")
			}
			if r.Intn(4) == 0 {
				q.Ct = pick(r, "", "text/plain", "application/json", "application/xml", "text/xml", "multipart/form-data", "application/x-www-form-urlencoded", "text/html; charset=utf-8", "application/json2", "application/octet-stream", "Application/JSON", "application/xhtml+xml")
			}
			if src != "uri" && r.Intn(4) == 0 {
				via = pick(r, "auto", "auto", "form", "formpost", "multipart", "query", "header", "json", "xml")
			}
			if r.Intn(3) == 0 {
				q.Query = g.pairsFor(fs, good)
			}
			if r.Intn(5) == 0 && src != "header" {
				g2 := *g
				g2.src = "form"
				for _, p := range g2.pairsFor(fs, good) {
					if bToken(p[0]) {
						q.Hs = append(q.Hs, p)
					}
				}
				g.jt = g2.jt
			}
			if (g.src == "form" || g.src == "uri") && via != "header" && r.Intn(8) == 0 {
				s.Top = pick(r, "mapstr", "maplist")
			}
		}
		if r.Intn(15) == 0 && via != "uri" {
			q.Badq = true
		}
		if q.Bk != "none" && r.Intn(15) == 0 {
			q.Bk = "garb"
		} else if (q.Bk == "multi" || q.Bk == "json" || q.Bk == "xml") && r.Intn(12) == 0 {
			q.Cut = true
		}
		if via != "uri" && r.Intn(4) == 0 {
			s.Direct = true
		}
		if e.Profile == "B05" {
			s.Direct = true
			if via == "auto" {
				via = map[string]string{"form": "form", "multi": "multipart"}[src]
			}
			via = "2" + via
			if (src == "form" && via == "2form" || src == "query") && r.Intn(8) == 0 {
				s.Top = pick(r, "mapstr", "maplist")
			}
		}
		q.Jt = append(q.Jt, g.jt...)
		s.Via = via
		bSane(&s, r)
		if doc := s.Via == "json" || s.Via == "xml"; e.Profile == "B01" && s.Top == "struct" && r.Intn(25) == 0 {
			s.Top = pick(r, "nilobj", "value", "intp", "mapint", "mapints")
			if doc || s.Via == "auto" && bChosenDoc(q) {
				s.Top = "value"
			}
		} else if doc && s.Direct && r.Intn(10) == 0 {
			q.Bk, q.Parts, q.Cut = "nil", []bPart{}, false
		}
		if s.Top == "struct" && r.Intn(3) == 0 && s.Via != "json" && s.Via != "xml" && !(s.Via == "auto" && bChosenDoc(q)) && q.Bk != "garb" && !q.Cut && !q.Badq && (q.Bk == "multi" || !strings.HasPrefix(q.Ct, "multipart/")) {
			s.Twice = true
		}
		if q.Bk == "multi" && !q.Badq && (s.Via == "auto" && !bChosenDoc(q) || s.Via == "2multipart" || s.Via == "form" || s.Via == "multipart" || s.Via == "query" || s.Via == "header") {
			for _, p := range q.Parts {
				if r.Intn(2) == 0 {
					s.Names = append(s.Names, p.N)
				}
			}
			if r.Intn(3) == 0 {
				s.Names = append(s.Names, "absent")
			}
		}
		out = append(out, s)
	}
	return out
}

// what cannot be bound to
var bNoTarget = map[string]bool{"nilobj": true, "value": true, "intp": true, "mapint": true, "mapints": true}

func bChosenDoc(q *bReq) bool {
	c := q.Ct
	if i := strings.IndexAny(c, " ;"); i >= 0 {
		c = c[:i]
	}
	return q.M != "GET" && (c == "application/json" || c == "application/xml" || c == "text/xml")
}

func bNoPre(fs []bField) {
	for i := range fs {
		fs[i].Pre = false
		bNoPre(fs[i].Sub)
	}
}

func bToken(s string) bool {
	for _, c := range s {
		if !(c >= 'a' && c <= 'z' || c >= 'A' && c <= 'Z' || c >= '0' && c <= '9' || c == '-') {
			return false
		}
	}
	return s != ""
}

// bSane keeps requests within what the specification describes.
func bSane(s *bScen, r *rand.Rand) {
	q := &s.Q
	lc := strings.ToLower(q.Ct)
	if strings.HasPrefix(lc, "application/x-www-form-urlencoded") && q.Bk != "url" && q.Bk != "garb" {
		q.Bk, q.Cut = "none", false
	}
	if !strings.HasPrefix(lc, "multipart/") && q.Bk == "multi" { // it may hold anything
		q.Bk, q.Parts, q.Cut = "none", []bPart{}, false
	}
	doc := s.Via == "json" || s.Via == "xml" || s.Via == "auto" && bChosenDoc(q)
	if doc && q.Bk == "multi" {
		q.Bk, q.Parts, q.Cut = "none", []bPart{}, false
	}
	if doc && q.Bk == "json" && (s.Via == "xml" || s.Via == "auto" && strings.Contains(q.Ct, "xml")) {
		q.Bk, q.Cut = "garb", false
	}
	if doc && q.Bk != "json" && q.Bk != "xml" && s.Top != "struct" {
		s.Top = "struct"
	}
	if !doc && (s.Top == "list" || s.Top == "plist") {
		s.Top = "struct"
	}
	if doc && (s.Top == "list" || s.Top == "plist") && (s.Via == "xml" || s.Via == "auto" && strings.Contains(q.Ct, "xml")) {
		s.Top = "struct"
	}
	if doc && q.Doc.T != "obj" && q.Bk == "xml" {
		q.Doc = bDoc{T: "obj", O: []bMember{}, A: []bDoc{}}
	}
	for i := range q.Parts {
		p := &q.Parts[i]
		if p.N == "" {
			p.N = "e"
		}
	}
	for i := len(q.Hs) - 1; i >= 0; i-- {
		v := q.Hs[i][1]
		if !bToken(q.Hs[i][0]) || strings.ContainsAny(v, "\r\n") {
			q.Hs = append(q.Hs[:i], q.Hs[i+1:]...)
		}
	}
}
