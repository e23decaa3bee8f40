package main

import (
	"encoding/json"
	"fmt"
	"strings"

	"github.com/meilihao/water"
)

// Family "params": typed path parameters (Q02).

type pOp struct {
	A    string `json:"a"`
	Name string `json:"name"`
	Hit  bool   `json:"hit"` // on the matching request, or on one no route matches
}
type pObs struct {
	Panic bool   `json:"panic"`
	V     string `json:"v"`
	Err   bool   `json:"err"`
}
type pScen struct {
	Id  string     `json:"id"`
	Ps  [][]string `json:"ps"`
	Ops []pOp      `json:"ops"`
	Obs []pObs     `json:"obs"`
}

func init() { families["params"] = Family{Gen: paramsGen, Exec: paramsExec} }

func paramsCall(c *water.Context, op pOp, o *pObs) {
	n := op.Name
	var v interface{}
	var err error
	switch op.A {
	case "Param":
		v = c.Param(n)
	case "String":
		v = c.Params.String(n)
	case "Bool":
		v, err = c.Params.Bool(n)
	case "Int":
		v, err = c.Params.Int(n)
	case "Int64":
		v, err = c.Params.Int64(n)
	case "Uint":
		v, err = c.Params.Uint(n)
	case "Uint64":
		v, err = c.Params.Uint64(n)
	case "Float64":
		v, err = c.Params.Float64(n)
	case "MustBool":
		v = c.Params.MustBool(n)
	case "MustInt":
		v = c.Params.MustInt(n)
	case "MustInt64":
		v = c.Params.MustInt64(n)
	case "MustUint":
		v = c.Params.MustUint(n)
	case "MustUint64":
		v = c.Params.MustUint64(n)
	case "MustFloat64":
		v = c.Params.MustFloat64(n)
	default:
		panic("harness: " + op.A)
	}
	o.Err = err != nil
	if f, ok := v.(float64); ok {
		o.V = ffmt(f)
	} else {
		o.V = fmt.Sprint(v)
	}
}

func paramsExec(e *Env, raw json.RawMessage) (interface{}, error) {
	var s pScen
	if err := dec(raw, &s); err != nil {
		return nil, err
	}
	s.Obs = []pObs{}
	var op pOp
	h := func(c *water.Context) {
		o := pObs{}
		o.Panic = caught(func() { paramsCall(c, op, &o) }) != ""
		if o.Panic {
			o.V, o.Err = "", false
		}
		s.Obs = append(s.Obs, o)
	}
	pat, path := "/p", "/p"
	for _, p := range s.Ps {
		pat += "/<" + p[0] + ">"
		path += "/" + p[1]
	}
	r := water.NewRouter()
	r.GET(pat+"/end", h)
	eng := r.Handler(water.WithNoFoundHandlers(h))
	for _, op = range s.Ops {
		u := path + "/end"
		if !op.Hit {
			u = path
		}
		eng.ServeHTTP(newRec(), newReq("GET", u, "1.1", nil))
	}
	return s, nil
}

func paramsGen(e *Env) []interface{} {
	r := e.R
	out := []interface{}{}
	accs := []string{"Bool", "Int", "Int64", "Uint", "Uint64", "Float64"}
	for i := 0; i < e.N; i++ {
		s := pScen{Id: "p" + itoa(i)}
		names := []string{"a", "b", "id", "ID", "名", "x_y", "_"}
		r.Shuffle(len(names), func(a, b int) { names[a], names[b] = names[b], names[a] })
		n := 1 + r.Intn(3)
		for x := 0; x < n; x++ {
			t := numText(r)
			if r.Intn(8) == 0 {
				t = pick(r, "john", " 5", "5 ", "a b", "日本", "%31", "", strings.Repeat("1", 300), "\t7")
			}
			s.Ps = append(s.Ps, []string{names[x], t})
		}
		for y := 4 + r.Intn(8); y > 0; y-- {
			x := r.Intn(n)
			op := pOp{A: pick(r, accs...), Name: s.Ps[x][0], Hit: r.Intn(10) > 0}
			if r.Intn(2) == 0 {
				op.A = "Must" + op.A
			}
			if r.Intn(8) == 0 {
				op.A = pick(r, "Param", "String")
			}
			if strings.HasSuffix(op.A, "Float64") && !floatSafe(s.Ps[x][1]) {
				op.A = strings.Replace(op.A, "Float", "Int", 1)
			}
			if r.Intn(8) == 0 {
				op.Name = pick(r, "", "c", "absent", "*0", "_", "_", strings.ToUpper(names[5]), names[5])
			}
			s.Ops = append(s.Ops, op)
		}
		out = append(out, s)
	}
	return out
}
