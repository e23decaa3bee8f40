package main

import (
	"encoding/json"
	"strings"

	"github.com/meilihao/water"
)

// Family "cors": the cross-origin middleware (M01).

type coCfg struct {
	Origins []string `json:"origins"`
	Methods []string `json:"methods"`
	Headers []string `json:"headers"`
	Creds   bool     `json:"creds"`
	Expose  []string `json:"expose"`
	Age     int      `json:"age"`
}
type coReq struct {
	M      string `json:"m"`
	Origin string `json:"origin"`
	Acrh   string `json:"acrh"`
	Acrm   string `json:"acrm"`
	Other  string `json:"other"` // a header that must not matter
	Vary   string `json:"vary"`  // set by an earlier handler
	Do     string `json:"do"`    // what the last handler does
}
type coObs struct {
	Panic   string   `json:"panic"`
	Code    int      `json:"code"`
	Ran     []string `json:"ran"`
	Size    int      `json:"size"`
	Acao    string   `json:"acao"`
	Vary    []string `json:"vary"`
	Methods string   `json:"methods"`
	Headers string   `json:"headers"`
	Creds   string   `json:"creds"`
	Expose  string   `json:"expose"`
	Age     string   `json:"age"`
}
type coScen struct {
	Id  string  `json:"id"`
	Cfg coCfg   `json:"cfg"`
	Qs  []coReq `json:"qs"`
	Nf  bool    `json:"nf"`
	Obs []coObs `json:"obs"`
}

func init() { families["cors"] = Family{Gen: corsGen, Exec: corsExec} }

func corsExec(e *Env, raw json.RawMessage) (interface{}, error) {
	var s coScen
	if err := dec(raw, &s); err != nil {
		return nil, err
	}
	s.Obs = []coObs{}
	var o *coObs
	var q *coReq
	b := func(c *water.Context) {
		o.Ran = append(o.Ran, "b")
		if q.Vary != "" {
			c.Header().Add("Vary", q.Vary)
		}
	}
	m := func(c *water.Context) { o.Ran = append(o.Ran, "m") }
	h := func(c *water.Context) {
		o.Ran = append(o.Ran, "h")
		switch q.Do {
		case "": // nothing
		case "head":
			c.WriteHeader(201)
		case "write":
			c.Write([]byte("body"))
		default:
			c.String(201, "body")
		}
	}
	cp := func(l []string) []string {
		if l == nil {
			return nil
		}
		return append([]string{}, l...)
	}
	cfg := water.CORSConfig{AllowOrigins: cp(s.Cfg.Origins), AllowMethods: cp(s.Cfg.Methods), AllowHeaders: cp(s.Cfg.Headers),
		AllowCredentials: s.Cfg.Creds, ExposeHeaders: cp(s.Cfg.Expose), MaxAge: s.Cfg.Age}
	mw := water.CORS(cfg)
	for _, l := range [][]string{cfg.AllowOrigins, cfg.AllowMethods, cfg.AllowHeaders, cfg.ExposeHeaders} { // the lists are used for something else
		for i := range l {
			l[i] = "*"
		}
	}
	r := water.NewRouter()
	opts := []water.Option{}
	if s.Nf {
		r.Before(b, mw)
		r.GET("/other", h)
		opts = append(opts, water.WithNoFoundHandlers(m, h))
	} else {
		r.Use(b, mw, m)
		for _, x := range allMethods {
			regAs(r, x, "/c/<x>", h)
		}
	}
	eng := r.Handler(opts...)
	for i := range s.Qs {
		q = &s.Qs[i]
		o = &coObs{Ran: []string{}, Vary: []string{}}
		w := newRec()
		rq := newReq(q.M, "/c/1", "1.1", nil)
		if q.Origin != "" {
			rq.Header.Set("Origin", q.Origin)
		}
		if q.Acrh != "" {
			rq.Header.Set("Access-Control-Request-Headers", q.Acrh)
		}
		if q.Acrm != "" {
			rq.Header.Set("Access-Control-Request-Method", q.Acrm)
		}
		if q.Other != "" {
			rq.Header.Set(q.Other, "true")
		}
		o.Panic = caught(func() { eng.ServeHTTP(w, rq) })
		o.Code, o.Size = w.code(), w.body.Len()
		hd := w.sent
		if hd == nil {
			hd = w.h
		}
		for _, v := range hd["Vary"] {
			for _, x := range strings.Split(v, ",") {
				o.Vary = append(o.Vary, strings.TrimSpace(x))
			}
		}
		one := func(k string) string { return strings.Join(hd[k], "|") }
		o.Acao, o.Methods, o.Headers = one("Access-Control-Allow-Origin"), one("Access-Control-Allow-Methods"), one("Access-Control-Allow-Headers")
		o.Creds, o.Expose, o.Age = one("Access-Control-Allow-Credentials"), one("Access-Control-Expose-Headers"), one("Access-Control-Max-Age")
		s.Obs = append(s.Obs, *o)
	}
	return s, nil
}

func corsGen(e *Env) []interface{} {
	r := e.R
	out := []interface{}{}
	base := []string{"http://a.com", "https://a.com", "http://a.com:8080", "http://b.org", "https://sub.a.com", "http://localhost:3000", "null", "http://例え.jp", "app://x"}
	mut := func(o string) string {
		switch r.Intn(8) {
		case 0:
			return strings.ToUpper(o)
		case 1:
			return o + "/"
		case 2:
			return o + ".evil.com"
		case 3:
			return "http://evil.com?" + o
		case 4:
			return o[:len(o)-1]
		case 5:
			return strings.Replace(o, "http", "https", 1)
		case 6:
			return " " + o
		default:
			return "x" + o
		}
	}
	list := func(n int, f func() string) []string {
		l := []string{}
		for i := 0; i < n; i++ {
			l = append(l, f())
		}
		return l
	}
	hdrs := []string{"X-A", "X-B", "Authorization", "Content-Type", "X-Long-Header-Name"}
	for i := 0; i < e.N; i++ {
		s := coScen{Id: "co" + itoa(i), Nf: r.Intn(4) == 0}
		n := r.Intn(5)
		if r.Intn(20) == 0 {
			n = 60
		}
		s.Cfg.Origins = list(n, func() string {
			if r.Intn(8) == 0 {
				return pick(r, "*", "*", "", "http://*.a.com", "*.com")
			}
			return base[r.Intn(len(base))]
		})
		s.Cfg.Methods = list(r.Intn(4), func() string { return pick(r, "GET", "POST", "PATCH", "X-CUSTOM", "DELETE") })
		s.Cfg.Headers = list(r.Intn(3), func() string { return pick(r, hdrs...) })
		s.Cfg.Expose = list(r.Intn(3), func() string { return pick(r, hdrs...) })
		s.Cfg.Creds = r.Intn(2) == 0
		s.Cfg.Age = []int{0, 0, 1, 600, -1, 7200, 86400, 86401, 604800, 31536000, 2147483647}[r.Intn(11)]
		for x := 1 + r.Intn(6); x > 0; x-- {
			q := coReq{M: pick(r, "OPTIONS", "OPTIONS", "GET", "POST", pick(r, allMethods...)), Vary: pick(r, "", "", "Accept-Encoding"), Do: pick(r, "", "head", "write", "string")}
			switch r.Intn(6) {
			case 0:
			case 1:
				q.Origin = mut(base[r.Intn(len(base))])
			case 2:
				if len(s.Cfg.Origins) > 0 {
					if q.Origin = s.Cfg.Origins[r.Intn(len(s.Cfg.Origins))]; q.Origin != "" && r.Intn(3) == 0 {
						q.Origin = mut(q.Origin)
					}
				}
			default:
				q.Origin = base[r.Intn(len(base))]
			}
			if r.Intn(2) == 0 {
				q.Acrh = pick(r, "x-q", "X-One, X-Two", "content-type", "x-a,x-b, authorization")
			}
			if r.Intn(3) > 0 {
				q.Acrm = pick(r, "PUT", "GET", "OPTIONS", "X-CUSTOM", "put")
			}
			if r.Intn(3) == 0 {
				q.Other = pick(r, "Access-Control-Request-Private-Network", "Cookie", "Authorization", "Sec-Fetch-Mode", "Referer", "Upgrade")
			}
			s.Qs = append(s.Qs, q)
		}
		out = append(out, s)
	}
	return out
}
