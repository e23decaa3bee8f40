package main

import (
	"fmt"
	"net/http"

	"github.com/meilihao/water"
)

// gateReq is a request whose handlers do what the scenario's schedule tells
// them, one command at a time.
type gateReq struct {
	cmd   chan func(*water.Context) bool // true: the handler returns
	ready chan struct{}
	done  bool
	panic string
	w     *rec
	q     *http.Request
}

func newGate(q *http.Request) *gateReq {
	g := &gateReq{cmd: make(chan func(*water.Context) bool), ready: make(chan struct{}), w: newRec(), q: q}
	return g
}

// handle is what every gated handler runs.
func (g *gateReq) handle(ctx *water.Context) {
	for {
		g.ready <- struct{}{}
		if (<-g.cmd)(ctx) {
			return
		}
	}
}

// start serves the request and waits until its first handler is ready, or it is over.
func (g *gateReq) start(h http.Handler) {
	go func() {
		defer func() {
			if e := recover(); e != nil {
				g.panic = fmt.Sprint("panic: ", e)
			}
			g.done = true
			g.ready <- struct{}{}
		}()
		h.ServeHTTP(g.w, g.q)
	}()
	<-g.ready
}

// do has the running handler of g execute f and waits until it is ready again, or the request is over.
func (g *gateReq) do(f func(*water.Context) bool) {
	if g.done {
		return
	}
	g.cmd <- f
	<-g.ready
}

// finish lets all handlers return.
func (g *gateReq) finish() {
	for !g.done {
		g.do(func(*water.Context) bool { return true })
	}
}
