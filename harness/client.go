package main

import (
	"crypto/tls"
	"encoding/json"
	"strings"

	"github.com/meilihao/water"
)

// Family "client": what the request says about the client (Q04).

type clObs struct {
	Ip    string   `json:"ip"`
	Proxy []string `json:"proxy"`
	Proto string   `json:"proto"`
	Ajax  bool     `json:"ajax"`
	Ws    bool     `json:"ws"`
	Ua    string   `json:"ua"`
	Ct    string   `json:"ct"`
}
type clScen struct {
	Id    string     `json:"id"`
	Hs    [][]string `json:"hs"`
	Peer  string     `json:"peer"`
	Tls   bool       `json:"tls"`
	Panic string     `json:"panic"`
	Obs   []clObs    `json:"obs"`
}

func init() { families["client"] = Family{Gen: clientGen, Exec: clientExec} }

func clientExec(e *Env, raw json.RawMessage) (interface{}, error) {
	var s clScen
	if err := dec(raw, &s); err != nil {
		return nil, err
	}
	s.Obs, s.Panic = []clObs{}, ""
	r := water.NewRouter()
	r.ANY("/k", func(c *water.Context) {
		var a, b clObs
		a.Ip, a.Proxy, a.Proto, a.Ajax, a.Ws, a.Ua, a.Ct = c.RealIp(), c.Proxy(), c.Protocol(), c.IsAjax(), c.IsWebsocket(), c.UserAgent(), c.ContentType()
		b.Ct, b.Ua, b.Ws, b.Ajax, b.Proto, b.Proxy, b.Ip = c.ContentType(), c.UserAgent(), c.IsWebsocket(), c.IsAjax(), c.Protocol(), c.Proxy(), c.RealIp()
		s.Obs = append(s.Obs, a, b)
	})
	q := newReq([]string{"GET", "POST", "PUT"}[len(s.Hs)%3], "/k", "1.1", nil)
	for _, h := range s.Hs {
		q.Header[h[0]] = append(q.Header[h[0]], h[1])
	}
	q.RemoteAddr = s.Peer
	if s.Tls {
		q.TLS = &tls.ConnectionState{}
	}
	s.Panic = caught(func() { r.Handler().ServeHTTP(newRec(), q) })
	return s, nil
}

func clientGen(e *Env) []interface{} {
	r := e.R
	ip := func() string {
		return pick(r, "1.2.3.4", "10.0.0.1", "2001:db8::1", "::1", "[2001:db8::1]", "unknown", "_hidden", "1.2.3.4:5678", "203.0.113.195", "127.0.0.1", "fe80::1%eth0", "localhost", "a")
	}
	list := func() string {
		l := []string{}
		for i := 1 + r.Intn(4); i > 0; i-- {
			x := ip()
			if r.Intn(12) == 0 {
				x = ""
			}
			l = append(l, strings.Repeat(" ", r.Intn(3))+x+pick(r, "", "", " ", "\t"))
		}
		return strings.Join(l, ",")
	}
	out := []interface{}{}
	for i := 0; i < e.N; i++ {
		s := clScen{Id: "r" + itoa(i), Hs: [][]string{}, Peer: pick(r, "192.0.2.1:1234", "[::1]:80", "[fe80::1%lo]:9", "192.0.2.7", "@", "127.0.0.1:65535", "", ":80"), Tls: r.Intn(3) == 0}
		add := func(k, v string) { s.Hs = append(s.Hs, []string{k, v}) }
		if r.Intn(3) == 0 {
			add("X-Real-Ip", ip())
			if r.Intn(4) == 0 {
				add("X-Real-Ip", ip())
			}
		}
		for j := r.Intn(4); j > 0; j-- {
			add("X-Forwarded-For", list())
		}
		for j := r.Intn(3); j > 0; j-- {
			add("X-Forwarded-Proto", pick(r, "http", "https", "HTTPS", "ws", "https,http", " https", ""))
		}
		if r.Intn(2) == 0 {
			add("X-Requested-With", pick(r, "XMLHttpRequest", "xmlhttprequest", "XMLHttpRequest ", "com.app", ""))
		}
		if r.Intn(2) == 0 {
			add("Connection", pick(r, "Upgrade", "keep-alive, Upgrade", "upgrade", "UPGRADE", "keep-alive", "close"))
		}
		if r.Intn(2) == 0 {
			add("Upgrade", pick(r, "websocket", "WebSocket", "WEBSOCKET", "h2c", "websocket2", "", "TLS/1.0, websocket"))
		}
		if r.Intn(2) == 0 {
			add("User-Agent", pick(r, "curl/8", "Mozilla/5.0 (X11; Linux) x", "", "  a ", "b;c"))
		}
		if r.Intn(2) == 0 {
			add("Content-Type", pick(r, "text/plain", "text/plain; charset=utf-8", "application/json;charset=x", "a/b ;c", ";x", " text/html", "multipart/form-data; boundary=zz", "APPLICATION/JSON", "x\t;y"))
		}
		for j := r.Intn(3); j > 0; j-- {
			add(pick(r, "X-Forwarded-Host", "X-Client-Ip", "Forwarded", "X-Forwarded", "Client-Ip"), ip())
		}
		r.Shuffle(len(s.Hs), func(a, b int) { s.Hs[a], s.Hs[b] = s.Hs[b], s.Hs[a] })
		out = append(out, s)
	}
	return out
}
