package main

import (
	"bytes"
	"encoding/json"
	"fmt"
	"io"
	"math/rand"
	"mime/multipart"
	"net/http"
	"net/url"
	"strconv"
	"strings"

	"github.com/meilihao/water"
)

// Family "form": the form and query accessors (Q01).

type qOp struct {
	A     string     `json:"a"`
	Name  string     `json:"name"`
	Def   string     `json:"def"`
	Dlist []string   `json:"dlist"`
	Dmap  [][]string `json:"dmap"`
}
type qObs struct {
	Panic string     `json:"panic"`
	S     string     `json:"s"`
	L     []string   `json:"l"`
	M     [][]string `json:"m"`
}
type qReq struct {
	M     string     `json:"m"`
	Ct    string     `json:"ct"`
	Query [][]string `json:"query"`
	Body  [][]string `json:"body"`
	Enc   int        `json:"enc"` // how it is percent-encoded
	Path  string     `json:"path"`
	Bad   string     `json:"bad"` // a part that cannot be read: "query" or "body"
	Pre   string     `json:"pre"` // how a handler before parsed it by means of net/http: "", "parse" or "value"
	Ops   []qOp      `json:"ops"`
}
type qScen struct {
	Id  string   `json:"id"`
	Qs  []qReq   `json:"qs"`
	Obs [][]qObs `json:"obs"`
}

func init() { families["form"] = Family{Gen: formGen, Exec: formExec} }

func ffmt(f float64) string { return strconv.FormatFloat(f, 'f', -1, 64) }

func formCall(c *water.Context, op qOp, o *qObs) {
	dm := map[string]string{}
	for _, p := range op.Dmap {
		dm[p[0]] = p[1]
	}
	n, d := op.Name, op.Def
	switch op.A {
	case "Query":
		o.S = c.Query(n)
	case "QueryBool":
		o.S = fmt.Sprint(c.QueryBool(n))
	case "QueryInt":
		o.S = fmt.Sprint(c.QueryInt(n))
	case "QueryInt64":
		o.S = fmt.Sprint(c.QueryInt64(n))
	case "QueryUint":
		o.S = fmt.Sprint(c.QueryUint(n))
	case "QueryUint64":
		o.S = fmt.Sprint(c.QueryUint64(n))
	case "QueryFloat64":
		o.S = ffmt(c.QueryFloat64(n))
	case "QueryArray":
		o.L = c.QueryArray(n)
	case "QueryMap":
		o.M = pairs(c.QueryMap(n))
	case "DefaultQuery":
		o.S = c.DefaultQuery(n, d)
	case "DefaultQueryBool":
		o.S = fmt.Sprint(c.DefaultQueryBool(n, d))
	case "DefaultQueryInt":
		o.S = fmt.Sprint(c.DefaultQueryInt(n, d))
	case "DefaultQueryInt64":
		o.S = fmt.Sprint(c.DefaultQueryInt64(n, d))
	case "DefaultQueryUint":
		o.S = fmt.Sprint(c.DefaultQueryUint(n, d))
	case "DefaultQueryUint64":
		o.S = fmt.Sprint(c.DefaultQueryUint64(n, d))
	case "DefaultQueryFloat64":
		o.S = ffmt(c.DefaultQueryFloat64(n, d))
	case "DefaultQueryArray":
		o.L = c.DefaultQueryArray(n, op.Dlist)
	case "DefaultQueryMap":
		o.M = pairs(c.DefaultQueryMap(n, dm))
	default:
		panic("harness: " + op.A)
	}
}

// encPairs encodes pairs in one of several equivalent ways.
func encPairs(ps [][]string, how int) string {
	x := func(s string) string {
		switch how % 3 {
		case 1:
			return strings.ReplaceAll(url.QueryEscape(s), "+", "%20")
		case 2: // everything, in small letters
			b := ""
			for i := 0; i < len(s); i++ {
				b += fmt.Sprintf("%%%02x", s[i])
			}
			return b
		}
		return url.QueryEscape(s)
	}
	l := []string{}
	for _, p := range ps {
		if p[1] == "" && p[0] != "" && how%2 == 1 {
			l = append(l, x(p[0]))
		} else {
			l = append(l, x(p[0])+"="+x(p[1]))
		}
	}
	return strings.Join(l, "&")
}

// spoil adds a pair that cannot be read.
func spoil(s string, how int) string {
	bad := []string{"%zz=1", "a=%", "x;y=1", "a=1;b=2", "%=", "k=%4"}[how%6]
	if s == "" {
		return bad
	}
	l := strings.Split(s, "&")
	p := how / 6 % (len(l) + 1)
	return strings.Join(append(append(append([]string{}, l[:p]...), bad), l[p:]...), "&")
}

// formReq builds the request.
func formReq(q qReq) *http.Request {
	var body io.Reader
	ct := ""
	switch q.Ct {
	case "url":
		s := encPairs(q.Body, q.Enc/3)
		if q.Bad == "body" {
			s = spoil(s, q.Enc)
		}
		body = strings.NewReader(s)
		ct = []string{"application/x-www-form-urlencoded", "application/x-www-form-urlencoded; charset=UTF-8", "application/x-www-form-urlencoded;charset=utf-8"}[q.Enc%3]
	case "multi":
		var b bytes.Buffer
		mw := multipart.NewWriter(&b)
		for i, p := range q.Body {
			if i%3 == 1 && q.Enc%2 == 0 {
				fw, _ := mw.CreateFormFile("file", "f.txt")
				fw.Write([]byte("file body"))
			}
			mw.WriteField(p[0], p[1])
		}
		mw.Close()
		if q.Bad == "body" { // cut off
			b.Truncate(b.Len() - 5 - q.Enc%20)
		}
		body, ct = &b, mw.FormDataContentType()
		if q.Bad == "body" && q.Enc%5 == 4 { // nor does it say where its parts begin
			ct = "multipart/form-data"
		}
	case "other":
		s := encPairs(q.Body, q.Enc/3)
		if q.Bad == "body" {
			s = spoil(s, q.Enc)
		}
		body = strings.NewReader(s)
		ct = []string{"text/plain", "application/json", "application/octet-stream"}[q.Enc%3]
	}
	path := q.Path
	if path == "" {
		path = "/q"
	}
	r := newReq(q.M, path, "1.1", body)
	r.URL.RawQuery = encPairs(q.Query, q.Enc)
	if q.Bad == "query" {
		r.URL.RawQuery = spoil(r.URL.RawQuery, q.Enc)
	}
	r.RequestURI = r.URL.RequestURI()
	if ct != "" {
		r.Header.Set("Content-Type", ct)
	}
	return r
}

func formExec(e *Env, raw json.RawMessage) (interface{}, error) {
	var s qScen
	if err := dec(raw, &s); err != nil {
		return nil, err
	}
	s.Obs = [][]qObs{}
	var cur *qReq
	var obs []qObs
	half := 0
	h := func(c *water.Context) {
		n := len(cur.Ops) / 2
		ops := cur.Ops[:n]
		if half == 1 {
			ops = cur.Ops[n:]
		}
		half++
		if half == 1 {
			switch cur.Pre {
			case "parse":
				c.Request.ParseForm()
			case "value":
				c.Request.FormValue("a")
			}
		}
		for _, op := range ops {
			o := qObs{}
			o.Panic = caught(func() { formCall(c, op, &o) })
			if o.L == nil {
				o.L = []string{}
			}
			if o.M == nil {
				o.M = [][]string{}
			}
			obs = append(obs, o)
		}
	}
	r := water.NewRouter()
	for _, m := range allMethods {
		regAs(r, m, "/q", h, h)
	}
	eng := r.Handler(water.WithNoFoundHandlers(h, h))
	for i := range s.Qs {
		cur, obs, half = &s.Qs[i], []qObs{}, 0
		eng.ServeHTTP(newRec(), formReq(*cur))
		s.Obs = append(s.Obs, obs)
	}
	return s, nil
}

// numText makes texts around what typed accessors accept.
func numText(r *rand.Rand) string {
	switch r.Intn(12) {
	case 0:
		return pick(r, "0", "1", "-1", "+1", "00", "007", "-0", "+0", "-007")
	case 1, 2: // near a bound
		b := pick(r, "9223372036854775807", "9223372036854775808", "-9223372036854775808", "-9223372036854775809", "18446744073709551615", "18446744073709551616",
			"2147483647", "2147483648", "-2147483648", "-2147483649", "4294967295", "4294967296", "127", "128", "-128", "-129", "255", "256", "32767", "32768", "-32768",
			"-32769", "65535", "65536", "99999999999999999999999999", "-99999999999999999999999999", "340282366920938463463374607431768211456")
		if r.Intn(6) == 0 {
			b = "000" + strings.TrimPrefix(b, "-")
		}
		return b
	case 3: // malformed
		return pick(r, "", "x", "1x", "x1", "1 2", "--1", "+-1", "1,000", "1_000", "0x10", "1.0.0", "-", "+", ".", "١", "1e", "e1", "0b1", "0o7", "1-", "tru", "yes", "on", "nil")
	case 4:
		return pick(r, "true", "false", "1", "0", "t", "f", "T", "F", "TRUE", "FALSE", "True", "False", "tRUE", "TrUe")
	case 5, 6:
		s := ""
		for i := 1 + r.Intn(5); i > 0; i-- {
			s += itoa(r.Intn(10))
		}
		if r.Intn(3) > 0 {
			s = s + "." + itoa(r.Intn(10)) + pick(r, "", "0", "5")
		}
		return pick(r, "", "", "-", "+") + s
	case 7:
		return pick(r, "1e3", "1E-2", "-2.5e+2", "inf", "+Inf", "-Infinity", "NaN", "0x1p4", "1e400", "-1e400", "1e-400", "1e39", ".5", "5.", "-.25", "0.10", "100")
	}
	s := itoa(1 + r.Intn(9))
	for i := r.Intn(20); i > 0; i-- {
		s += itoa(r.Intn(10))
	}
	return pick(r, "", "-", "+", "") + s
}

// isShort: exact as a double and printed without rounding.
func floatSafe(s string) bool {
	d := 0
	for _, c := range s {
		if c >= '0' && c <= '9' {
			d++
		}
	}
	return d <= 6 || strings.ContainsAny(s, "ex") || strings.Contains(strings.ToLower(s), "inf")
}

func formGen(e *Env) []interface{} {
	r := e.R
	out := []interface{}{}
	accs := []string{"Query", "Query", "QueryBool", "QueryInt", "QueryInt64", "QueryUint", "QueryUint64", "QueryFloat64", "QueryArray", "QueryArray", "QueryMap", "QueryMap"}
	for i := 0; i < e.N; i++ {
		s := qScen{Id: "q" + itoa(i)}
		names := []string{"a", "b", "A", "name", "日本", "x y", "a.b", "a&b", "a=b", "", "%41", strings.Repeat("k", 100)}
		r.Shuffle(len(names), func(a, b int) { names[a], names[b] = names[b], names[a] })
		names = names[:2+r.Intn(4)]
		val := func() string {
			v := ""
			switch r.Intn(8) {
			case 0:
				v = ""
			case 1, 2, 3:
				v = numText(r)
			case 4:
				v = pick(r, "a b", "日本語", "a+b", "100%", "a&b=c", "<x>", "\"q\"", "a;b", "é", "semi\x00zero", "\\")
			case 5:
				v = strings.Repeat("v", []int{1, 100, 2000}[r.Intn(3)])
			default:
				v = pick(r, "x", "yes", "text")
			}
			if r.Intn(4) == 0 {
				v = pick(r, " ", "\t", "\n", "  ", "\r\n", "") + v + pick(r, " ", "\t", "\n", "   ")
			}
			return v
		}
		key := func() string {
			n := names[r.Intn(len(names))]
			if r.Intn(3) == 0 {
				return n + pick(r, "[k]", "[k]", "[j]", "[日]", "[x y]", "[]", "[open", "]", "[1]", "[k.l]", "[[]", "[k][l]", "[k]]", "[k]x", "[][k]", "[[k]]", "[k", "]k[", " [k]", "[ k ]")
			}
			if r.Intn(15) == 0 {
				return pick(r, "[k]", "[]", "x"+n+"[k]")
			}
			return n
		}
		plist := func(n int) [][]string {
			l := [][]string{}
			for ; n > 0; n-- {
				l = append(l, []string{key(), val()})
			}
			return l
		}
		for x := 1 + r.Intn(4); x > 0; x-- {
			q := qReq{M: pick(r, "GET", "POST", "POST", "PUT", "PATCH", "DELETE", "HEAD", "OPTIONS"), Ct: pick(r, "none", "url", "url", "multi", "other"),
				Query: plist(r.Intn(6)), Enc: r.Intn(18), Path: pick(r, "/q", "/q", "/nope"), Body: [][]string{}}
			if q.Ct != "none" {
				q.Body = plist(r.Intn(6))
			}
			if r.Intn(30) == 0 {
				q.Query = plist(150)
			}
			if r.Intn(8) == 0 {
				q.Bad = pick(r, "query", "body")
			}
			if q.Bad == "" && r.Intn(6) == 0 {
				q.Pre = "parse"
				if (q.M == "POST" || q.M == "PUT" || q.M == "PATCH") && r.Intn(2) == 0 {
					q.Pre = "value"
				}
			}
			if q.Ct == "multi" { // multipart names and values cannot hold everything
				for b := range q.Body {
					q.Body[b][0] = strings.NewReplacer("\n", "", "\r", "", "\"", "", "\\", "").Replace(q.Body[b][0])
					if q.Body[b][0] == "" { // has no name on the wire
						q.Body[b][0] = "e"
					}
				}
			}
			for y := 2 + r.Intn(8); y > 0; y-- {
				op := qOp{A: accs[r.Intn(len(accs))], Name: names[r.Intn(len(names))], Dlist: []string{}, Dmap: [][]string{}}
				if r.Intn(6) == 0 {
					op.Name = pick(r, "absent", "k", "a[k]", op.Name+" ", strings.ToUpper(op.Name))
				}
				if op.A == "QueryMap" && strings.Contains(op.Name, "[") {
					op.Name = names[0] // a map's own name has no bracket
				}
				if r.Intn(2) == 0 {
					op.A = "Default" + op.A
					op.Def = pick(r, "", "dflt", "5", "-7", "true", "2.5", " d ", numText(r))
					if op.A != "DefaultQuery" {
						op.Def = strings.TrimSpace(op.Def)
					}
					for z := r.Intn(3); z > 0; z-- {
						op.Dlist = append(op.Dlist, pick(r, "d1", " d2 ", ""))
					}
					if r.Intn(2) == 0 {
						op.Dmap = [][]string{{"dk", " dv "}}
					}
				}
				if strings.HasSuffix(op.A, "Float64") && !floatOK(q, op) {
					op.A = strings.Replace(op.A, "Float64", "Int64", 1)
				}
				q.Ops = append(q.Ops, op)
			}
			s.Qs = append(s.Qs, q)
		}
		out = append(out, s)
	}
	return out
}

func floatOK(q qReq, op qOp) bool {
	if !floatSafe(op.Def) {
		return false
	}
	for _, l := range [][][]string{q.Query, q.Body} {
		for _, p := range l {
			if p[0] == op.Name && !floatSafe(p[1]) {
				return false
			}
		}
	}
	return true
}

func ffmt32(f float64) string { return strconv.FormatFloat(f, 'f', -1, 32) }
