package main

import (
	"encoding/json"
	"fmt"
	"math/rand"
	"net/http"
	"strconv"
	"strings"

	"github.com/meilihao/water"
)

// Family "cookie": reading and setting cookies (Q03).

type kArg struct {
	T string `json:"t"`
	V string `json:"v"`
}
type kOp struct {
	A     string `json:"a"`
	Name  string `json:"name"`
	Value string `json:"value"`
	Args  []kArg `json:"args"`
}
type kObs struct {
	Panic string `json:"panic"`
	V     string `json:"v"`
	N     int    `json:"n"` // Set-Cookie headers so far
}
type kMade struct {
	Name   string `json:"name"`
	Value  string `json:"value"`
	Age    string `json:"age"`
	Path   string `json:"path"`
	Domain string `json:"domain"`
	Secure bool   `json:"secure"`
	Http   bool   `json:"http"`
	Site   string `json:"site"`
}
type kScen struct {
	Id  string     `json:"id"`
	Cs  [][]string `json:"cs"`
	Ops []kOp      `json:"ops"`
	Obs []kObs     `json:"obs"`
	Jar []kMade    `json:"jar"`
}

func init() { families["cookie"] = Family{Gen: cookieGen, Exec: cookieExec} }

var siteNames = map[string]http.SameSite{"Default": http.SameSiteDefaultMode, "Lax": http.SameSiteLaxMode, "Strict": http.SameSiteStrictMode, "None": http.SameSiteNoneMode}

func (a kArg) value() interface{} {
	i, _ := strconv.ParseInt(a.V, 10, 64)
	switch a.T {
	case "nil":
		return nil
	case "int":
		return int(i)
	case "int32":
		return int32(i)
	case "int64":
		return i
	case "uint":
		return uint(i)
	case "bool":
		return a.V == "true"
	case "string":
		return a.V
	case "site":
		return siteNames[a.V]
	case "struct":
		return envStruct{}
	}
	panic("harness: " + a.T)
}

// madeOf reads one Set-Cookie line by itself.
func madeOf(line string) kMade {
	m := kMade{}
	for i, f := range strings.Split(line, ";") {
		f = strings.TrimSpace(f)
		k, v := f, ""
		if j := strings.Index(f, "="); j >= 0 {
			k, v = f[:j], f[j+1:]
		}
		if i == 0 {
			m.Name, m.Value = k, v
			if len(v) > 1 && v[0] == '"' && v[len(v)-1] == '"' {
				m.Value = v[1 : len(v)-1]
			}
			continue
		}
		switch strings.ToLower(k) {
		case "max-age":
			if m.Age = v; v == "0" || strings.HasPrefix(v, "-") {
				m.Age = "-1"
			}
		case "path":
			m.Path = v
		case "domain":
			m.Domain = v
		case "secure":
			m.Secure = true
		case "httponly":
			m.Http = true
		case "samesite":
			m.Site = v
		default:
			m.Name += " UNKNOWN " + f
		}
	}
	return m
}

func cookieExec(e *Env, raw json.RawMessage) (interface{}, error) {
	var s kScen
	if err := dec(raw, &s); err != nil {
		return nil, err
	}
	s.Obs, s.Jar = []kObs{}, []kMade{}
	h := func(c *water.Context) {
		for _, op := range s.Ops {
			o := kObs{}
			n := op.Name
			o.Panic = caught(func() {
				switch op.A {
				case "set":
					args := []interface{}{}
					for _, a := range op.Args {
						args = append(args, a.value())
					}
					c.SetCookie(n, op.Value, args...)
				case "Cookie":
					o.V = c.Cookie(n)
				case "CookieEscape":
					o.V = c.CookieEscape(n)
				case "CookieBool":
					o.V = fmt.Sprint(c.CookieBool(n))
				case "CookieInt":
					o.V = fmt.Sprint(c.CookieInt(n))
				case "CookieInt64":
					o.V = fmt.Sprint(c.CookieInt64(n))
				case "CookieUint":
					o.V = fmt.Sprint(c.CookieUint(n))
				case "CookieUint64":
					o.V = fmt.Sprint(c.CookieUint64(n))
				case "CookieFloat64":
					o.V = ffmt(c.CookieFloat64(n))
				default:
					panic("harness: " + op.A)
				}
			})
			o.N = len(c.Header()["Set-Cookie"])
			s.Obs = append(s.Obs, o)
		}
	}
	r := water.NewRouter()
	r.GET("/k", h)
	eng := r.Handler()
	q := newReq("GET", "/k", "1.1", nil)
	l := []string{}
	for _, c := range s.Cs {
		l = append(l, c[0]+"="+c[1])
	}
	if len(l) > 2 && len(s.Ops)%2 == 0 { // two header lines
		q.Header.Add("Cookie", strings.Join(l[:1], "; "))
		l = l[1:]
	}
	if len(l) > 0 {
		q.Header.Add("Cookie", strings.Join(l, "; "))
	}
	w := newRec()
	eng.ServeHTTP(w, q)
	for _, x := range w.h["Set-Cookie"] {
		s.Jar = append(s.Jar, madeOf(x))
	}
	return s, nil
}

func cookieGen(e *Env) []interface{} {
	r := e.R
	out := []interface{}{}
	names := []string{"a", "b", "A", "session_id", "x-y", "__Host-z", "a.b", strings.Repeat("n", 60)}
	val := func() string {
		switch r.Intn(5) {
		case 0:
			for {
				t := numText(r)
				if !strings.ContainsAny(t, " ,;\"\\") && isASCII(t) {
					return t
				}
			}
		case 1:
			return pick(r, "<b>", "a&b", "'q'", "x=y", "==", "%20", "a+b", "<script>alert('x')</script>", "a/b?c", "{}", "!#$~^|")
		case 2:
			return strings.Repeat("v", []int{0, 1, 300, 3000, 4096, 5000}[r.Intn(6)])
		}
		return pick(r, "x", "token", "yes", "abc123", "")
	}
	gets := []string{"Cookie", "Cookie", "CookieEscape", "CookieBool", "CookieInt", "CookieInt64", "CookieUint", "CookieUint64", "CookieFloat64"}
	nilOr := func(a kArg) kArg {
		if r.Intn(4) == 0 {
			return kArg{T: "nil"}
		}
		return a
	}
	for i := 0; i < e.N; i++ {
		s := kScen{Id: "k" + itoa(i), Cs: [][]string{}}
		mine := []string{}
		for x := 0; x < 4; x++ {
			mine = append(mine, names[r.Intn(len(names))])
		}
		for x := r.Intn(6); x > 0; x-- {
			s.Cs = append(s.Cs, []string{pick(r, mine...), val()})
		}
		if r.Intn(15) == 0 {
			for x := 0; x < 60; x++ {
				s.Cs = append(s.Cs, []string{"many" + itoa(x), itoa(x)})
			}
		}
		for y := 3 + r.Intn(8); y > 0; y-- {
			op := kOp{A: "set", Name: pick(r, mine...), Args: []kArg{}}
			if r.Intn(2) == 0 {
				op.A = pick(r, gets...)
				if r.Intn(6) == 0 {
					op.Name = pick(r, "absent", "many7", strings.ToUpper(op.Name))
				} else if r.Intn(3) > 0 && len(s.Cs) > 0 {
					op.Name = s.Cs[r.Intn(len(s.Cs))][0]
				}
				for _, c := range s.Cs {
					if c[0] == op.Name && op.A == "CookieFloat64" && !floatSafe(c[1]) {
						op.A = "CookieInt64"
					}
				}
			} else {
				op.Value = val()
				if r.Intn(8) == 0 {
					op.Value = pick(r, "a b", "x,y", " lead", "trail ")
				}
				all := []kArg{
					nilOr(bigAge(r, kArg{pick(r, "int", "int", "int32", "int64", "uint", "string", "bool"), pick(r, "0", "1", "3600", "-1", "-100", "2147483647", "86400", "315360000")})),
					nilOr(kArg{pick(r, "string", "string", "string", "int"), pick(r, "", "/", "/p", "/a/b", "rel")}),
					nilOr(kArg{pick(r, "string", "string", "string", "bool"), pick(r, "", "example.com", "sub.example.com", "localhost")}),
					nilOr(kArg{pick(r, "bool", "bool", "bool", "int", "string", "struct"), pick(r, "true", "false")}),
					nilOr(kArg{pick(r, "bool", "bool", "bool", "int", "string"), pick(r, "true", "false")}),
					nilOr(kArg{pick(r, "site", "site", "site", "int"), pick(r, "Lax", "Strict", "None")}),
				}
				op.Args = all[:r.Intn(7)]
			}
			s.Ops = append(s.Ops, op)
		}
		out = append(out, s)
	}
	return out
}

func isASCII(s string) bool {
	for _, c := range s {
		if c > 126 || c < 33 {
			return false
		}
	}
	return true
}

// bigAge makes some ages exceed 32 bits.
func bigAge(r *rand.Rand, a kArg) kArg {
	if (a.T == "int" || a.T == "int64") && r.Intn(4) == 0 {
		a.V = pick(r, "4294967301", "4294967296", "9223372036854775807", "-4294967296", "2147483648")
	}
	return a
}
