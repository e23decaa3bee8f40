package main

import (
	"encoding/json"
	"errors"
	"fmt"
	"sort"
	"strconv"
	"strings"

	"github.com/meilihao/water"
)

// Family "environ": the request environment (E01).

type eOp struct {
	A    string `json:"a"`
	R    int    `json:"r"`
	Name string `json:"name"`
	T    string `json:"t"`
	V    string `json:"v"`
}
type eObs struct {
	Panic bool   `json:"panic"`
	T     string `json:"t"`
	V     string `json:"v"`
	Ok    bool   `json:"ok"`
}
type eScen struct {
	Id  string `json:"id"`
	N   int    `json:"n"` // handlers
	Ops []eOp  `json:"ops"`
	Obs []eObs `json:"obs"`
}

func init() { families["environ"] = Family{Gen: environGen, Exec: environExec} }

type envStruct struct{ A, B int }
type envName string
type envInt int
type envBool bool

func (n envName) String() string { return "not " + string(n) }

var envPtrs = map[string]*envStruct{}

// mkVal and tv turn (type, text) into a value and back.
func mkVal(t, v string) interface{} {
	i, _ := strconv.ParseInt(v, 10, 64)
	u, _ := strconv.ParseUint(v, 10, 64)
	f, _ := strconv.ParseFloat(v, 64)
	switch t {
	case "nil":
		return nil
	case "bool":
		return v == "true"
	case "int":
		return int(i)
	case "int8":
		return int8(i)
	case "int32":
		return int32(i)
	case "int64":
		return i
	case "uint":
		return uint(u)
	case "uint8":
		return uint8(u)
	case "uint64":
		return u
	case "float32":
		return float32(f)
	case "float64":
		return f
	case "string":
		return v
	case "error":
		return errors.New(v)
	case "struct":
		return envStruct{int(i), 0}
	case "slice":
		return strings.Split(v, ",")
	case "ptr":
		if envPtrs[v] == nil {
			envPtrs[v] = &envStruct{}
		}
		return envPtrs[v]
	case "nilptr":
		return (*envStruct)(nil)
	case "bytes":
		return []byte(v)
	case "rune":
		return rune(i)
	case "named string":
		return envName(v)
	case "named int":
		return envInt(i)
	case "named bool":
		return envBool(v == "true")
	case "number":
		return json.Number(v)
	case "string ptr":
		return &v
	case "int16", "uint16", "uint32":
		return map[string]interface{}{"int16": int16(i), "uint16": uint16(u), "uint32": uint32(u)}[t]
	}
	panic("harness: type " + t)
}

func tv(x interface{}) (string, string) {
	switch v := x.(type) {
	case nil:
		return "nil", ""
	case float64:
		return "float64", strconv.FormatFloat(v, 'f', -1, 64)
	case float32:
		return "float32", strconv.FormatFloat(float64(v), 'f', -1, 32)
	case []byte:
		return "bytes", string(v)
	case envName:
		return "named string", string(v)
	case envInt:
		return "named int", itoa(int(v))
	case envBool:
		return "named bool", fmt.Sprint(bool(v))
	case json.Number:
		return "number", v.String()
	case *string:
		return "string ptr", *v
	case error:
		return "error", v.Error()
	case envStruct:
		return "struct", itoa(v.A)
	case []string:
		return "slice", strings.Join(v, ",")
	case *envStruct:
		if v == nil {
			return "nilptr", ""
		}
		for k, p := range envPtrs {
			if p == v {
				return "ptr", k
			}
		}
		return "ptr", "?"
	}
	return fmt.Sprintf("%T", x), fmt.Sprint(x)
}

func envOp(ctx *water.Context, op eOp, o *eObs) {
	p := caught(func() {
		switch op.A {
		case "set":
			ctx.Set(op.Name, mkVal(op.T, op.V))
		case "eset":
			ctx.Environ.Set(op.Name, mkVal(op.T, op.V))
		case "get":
			o.T, o.V = tv(ctx.Get(op.Name))
		case "eget":
			o.T, o.V = tv(ctx.Environ.Get(op.Name))
		case "maybe":
			v, ok := ctx.GetMaybe(op.Name)
			o.T, o.V = tv(v)
			o.Ok = ok
		case "has":
			o.Ok = ctx.Environ.Has(op.Name)
		case "len":
			o.V = itoa(len(ctx.Environ))
		case "typed":
			switch op.T {
			case "bool":
				o.T, o.V = tv(ctx.Environ.GetBool(op.Name))
			case "int":
				o.T, o.V = tv(ctx.Environ.GetInt(op.Name))
			case "int64":
				o.T, o.V = tv(ctx.Environ.GetInt64(op.Name))
			case "uint":
				o.T, o.V = tv(ctx.Environ.GetUint(op.Name))
			case "uint64":
				o.T, o.V = tv(ctx.Environ.GetUint64(op.Name))
			case "float64":
				o.T, o.V = tv(ctx.Environ.GetFloat64(op.Name))
			case "string":
				o.T, o.V = tv(ctx.Environ.GetString(op.Name))
			}
		}
	})
	o.Panic = p != ""
	if o.Panic {
		o.T, o.V, o.Ok = "", "", false
	}
}

func environExec(e *Env, raw json.RawMessage) (interface{}, error) {
	var s eScen
	if err := dec(raw, &s); err != nil {
		return nil, err
	}
	s.Obs = []eObs{}
	reqs := map[int]*gateReq{}
	kept := map[int]water.Environ{} // what a handler may keep after its request
	r := water.NewRouter()
	hs := []interface{}{}
	for i := 0; i < s.N; i++ {
		hs = append(hs, asForm(handlerForms[i%len(handlerForms)], func(ctx *water.Context) {
			id, _ := strconv.Atoi(ctx.Request.Header.Get("Gate"))
			reqs[id].handle(ctx)
		}))
	}
	r.Before(hs[:s.N/3]...)
	r.GET("/e", hs[s.N/3:]...)
	eng := r.Handler(water.WithNoFoundHandlers(hs[s.N/3:]...))
	for _, op := range s.Ops {
		op := op
		o := eObs{}
		g := reqs[op.R]
		switch op.A {
		case "start":
			q := newReq("GET", []string{"/e", "/nope", "/e"}[op.R%3], "1.1", nil)
			q.Header.Set("Gate", itoa(op.R))
			g = newGate(q)
			reqs[op.R] = g
			g.start(eng)
		case "ret":
			g.do(func(*water.Context) bool { return true })
		case "next":
			g.do(func(ctx *water.Context) bool { ctx.Next(); return false })
		case "die":
			g.do(func(ctx *water.Context) bool { panic("die") })
		default:
			if g.done {
				if op.A != "eget" && op.A != "has" && op.A != "len" && op.A != "typed" {
					o.V = "the request is over"
					break
				}
				envOp(&water.Context{Environ: kept[op.R]}, op, &o)
				break
			}
			g.do(func(ctx *water.Context) bool { envOp(ctx, op, &o); kept[op.R] = ctx.Environ; return false })
		}
		s.Obs = append(s.Obs, o)
	}
	for _, g := range reqs {
		g.finish()
	}
	return s, nil
}

func environGen(e *Env) []interface{} {
	out := []interface{}{}
	r := e.R
	vals := [][2]string{{"nil", ""}, {"bool", "true"}, {"bool", "false"}, {"int", "0"}, {"int", "-5"}, {"int", "9223372036854775807"}, {"int8", "3"},
		{"int32", "7"}, {"int64", "0"}, {"int64", "-9223372036854775808"}, {"uint", "0"}, {"uint", "18446744073709551615"}, {"uint8", "9"}, {"uint64", "1"},
		{"uint64", "18446744073709551615"}, {"float32", "1.5"}, {"float64", "0"}, {"float64", "-2.25"}, {"string", ""}, {"string", "text"},
		{"string", strings.Repeat("ñ", 300)}, {"error", "e"}, {"struct", "4"}, {"slice", "a,b"}, {"ptr", "p1"}, {"ptr", "p2"}, {"nilptr", ""},
		{"bytes", "text"}, {"bytes", ""}, {"named string", "text"}, {"named int", "5"}, {"named bool", "true"}, {"number", "7"}, {"string ptr", "x"}, {"int16", "4"}, {"uint16", "4"}, {"uint32", "4"}, {"string", "7"}, {"string", "true"}}
	types := []string{"bool", "int", "int64", "uint", "uint64", "float64", "string"}
	for i := 0; i < e.N; i++ {
		s := eScen{Id: "e" + itoa(i), N: 1 + r.Intn(5)}
		names := []string{"a", "b", "A", "user", "", "日本", "x y", strings.Repeat("n", 200), "a.b", "status"}
		r.Shuffle(len(names), func(a, b int) { names[a], names[b] = names[b], names[a] })
		names = names[:1+r.Intn(5)]
		nr := 1 + r.Intn(3)
		left := map[int]int{} // handlers left, by request
		next := 1
		many := r.Intn(20) == 0
		over := []int{} // requests served, with an environment kept by a handler
		used := map[int]bool{}
		for n := 6 + r.Intn(20); n > 0; n-- {
			// start one, or go on with one
			live := []int{}
			for k := range left {
				live = append(live, k)
			}
			if len(live) == 0 || len(live) < nr && r.Intn(4) == 0 {
				s.Ops = append(s.Ops, eOp{A: "start", R: next})
				left[next] = s.N
				next++
				continue
			}
			sort.Ints(live)
			k := live[r.Intn(len(live))]
			name := names[r.Intn(len(names))]
			if len(over) > 0 && r.Intn(4) == 0 {
				o := over[r.Intn(len(over))]
				if r.Intn(3) == 0 {
					s.Ops = append(s.Ops, eOp{A: "typed", R: o, Name: name, T: types[r.Intn(len(types))]})
				} else {
					s.Ops = append(s.Ops, eOp{A: pick(r, "eget", "has", "len"), R: o, Name: name})
				}
				continue
			}
			n0 := len(s.Ops)
			switch d := r.Intn(20); {
			case d < 2:
				if left[k] == 1 {
					s.Ops = append(s.Ops, eOp{A: "ret", R: k})
					delete(left, k)
				} else {
					s.Ops = append(s.Ops, eOp{A: pick(r, "ret", "next"), R: k})
					left[k]--
				}
			case d < 3 && r.Intn(3) == 0:
				s.Ops = append(s.Ops, eOp{A: "die", R: k})
				delete(left, k)
			case d < 9:
				v := vals[r.Intn(len(vals))]
				s.Ops = append(s.Ops, eOp{A: pick(r, "set", "eset"), R: k, Name: name, T: v[0], V: v[1]})
			case d < 11:
				s.Ops = append(s.Ops, eOp{A: pick(r, "get", "eget"), R: k, Name: name})
			case d < 13:
				s.Ops = append(s.Ops, eOp{A: "maybe", R: k, Name: name})
			case d < 14:
				s.Ops = append(s.Ops, eOp{A: pick(r, "has", "len"), R: k, Name: name})
			default:
				s.Ops = append(s.Ops, eOp{A: "typed", R: k, Name: name, T: types[r.Intn(len(types))]})
			}
			if a := s.Ops[n0].A; a != "ret" && a != "next" && a != "die" {
				used[k] = true
			}
			if _, ok := left[k]; !ok && used[k] {
				over = append(over, k)
			}
			if many && r.Intn(3) == 0 {
				for x := 0; x < 40; x++ {
					if _, ok := left[k]; ok {
						s.Ops = append(s.Ops, eOp{A: "set", R: k, Name: "many" + itoa(x), T: "int", V: itoa(x)})
					}
				}
				many = false
			}
		}
		out = append(out, s)
	}
	return out
}
