---------------------------------- MODULE Mount ---------------------------------
(* Engines as HTTP handlers: of a server, of each other, behind a stripped prefix.  *)
(* An engine is [before, mids, routes, nf]: lists of handlers, and routes           *)
(* [m, uri, hs].  A handler is [id, k, e, p, steps]: k = "user" runs steps,         *)
(* "recovery" is the framework's, "engine" and "strip" pass the request on to        *)
(* engine e, "strip" after taking the prefix p off its path.                        *)
(* st = [lv, evs, panic, out, body, free]: a context per engine the request is in,  *)
(* what the handlers saw, the value of the panic on its way ("" if none), statuses  *)
(* and body parts that reached the client; free: the body holds a report of a panic.                    *)
EXTENDS Front
NoRes == [x \in {} |-> 0]
RECURSIVE Trees(_, _, _)
Trees(routes, j, t) == IF j > Len(routes) THEN t ELSE Trees(routes, j + 1, AddRoute(t, routes[j], <<>>, j))
TreesOf(e) == Trees(e.routes, 1, NoTrees)

Fresh == [lv |-> <<>>, evs |-> <<>>, panic |-> "", out |-> <<>>, body |-> <<>>, free |-> FALSE]
D(st)  == Len(st.lv)
RECURSIVE Code(_, _, _), Body(_, _, _)
(* a status line given to the context at depth d; depth 0 is the client             *)
Code(st, d, c) == IF d = 0 THEN [st EXCEPT !.out = Append(@, c)]
                  ELSE IF st.lv[d].w THEN st
                  ELSE [Code(st, d - 1, c) EXCEPT !.lv[d].w = TRUE, !.lv[d].code = c]
Body(st, d, b) == IF d = 0 THEN [st EXCEPT !.body = Append(@, b)]
                  ELSE Body(IF st.lv[d].w THEN st ELSE Code(st, d, 200), d - 1, b)
EvX(st, e, id, j, x) == LET l == st.lv[D(st)] IN
  [st EXCEPT !.evs = Append(@, [e |-> e, h |-> id, j |-> j, d |-> D(st), w |-> l.w, c |-> l.code, full |-> l.full, ps |-> l.ps, env |-> l.env, x |-> x])]
Ev(st, e, id, j) == EvX(st, e, id, j, "")

(* a panic keeps its value: what handler id raised, of the kind c *)
Value(id, c) == IF c = 2 THEN "abort" ELSE "h" \o ToString(id) \o "k" \o ToString(c)
RECURSIVE Serve(_, _, _, _), Loop(_, _, _), Start(_, _, _), Exec(_, _, _, _), Steps(_, _, _, _, _)
(* T: <<engines, their trees>> *)
Serve(T, x, q, st) ==
  LET g == Gate(q)
      e == T[1][x]
      m == MatchTree(NoRes, T[2][x][q.m], q.path)
      chain == IF m.r # 0 THEN e.before \o e.mids \o e.routes[m.r].hs ELSE IF e.nf = <<>> THEN <<>> ELSE e.before \o e.nf
      lvl == [w |-> FALSE, code |-> 0, nxt |-> 1, hs |-> chain, env |-> {}, full |-> IF m.r # 0 THEN e.routes[m.r].uri ELSE "", ps |-> {m.ps[j] : j \in 1..Len(m.ps)}]
  IN IF g # 0 THEN Code(st, D(st), g)
     ELSE IF chain = <<>> THEN Code(st, D(st), 404)
     ELSE LET s == Loop(T, q, [st EXCEPT !.lv = Append(@, lvl)]) IN [s EXCEPT !.lv = SubSeq(@, 1, Len(@) - 1)]
Loop(T, q, st) ==
  LET l == st.lv[D(st)] IN
  IF st.panic # "" \/ l.w \/ l.nxt > Len(l.hs) THEN st ELSE Loop(T, q, Start(T, q, st))
(* the next handler runs, whatever the response says *)
Start(T, q, st) == LET l == st.lv[D(st)] IN Exec(T, q, [st EXCEPT !.lv[D(st)].nxt = @ + 1], l.hs[l.nxt])
Next1(T, q, st) == IF st.lv[D(st)].nxt > Len(st.lv[D(st)].hs) THEN st ELSE Loop(T, q, Start(T, q, st))
Exec(T, q, st, h) ==
  CASE h.k = "user"   -> Steps(T, q, Ev([st EXCEPT !.lv[D(st)].env = @ \cup {h.id}], "start", h.id, 0), h, 1)
    [] h.k = "engine" -> Serve(T, h.e, q, st)
    [] h.k = "strip"  -> IF h.p # "" /\ ~HasPrefix(q.path, h.p) THEN Body(Code(st, D(st), 404), D(st), "404 page not found\n")
                         ELSE Serve(T, h.e, [q EXCEPT !.path = TrimPrefix(@, h.p)], st)
    [] h.k = "recovery" -> LET s == Next1(T, q, st) IN
                           IF s.panic # "" THEN [Code(s, D(s), 500) EXCEPT !.panic = "", !.free = TRUE] ELSE Code(s, D(s), 200)
Steps(T, q, st, h, j) ==
  IF j > Len(h.steps) THEN Ev(st, "end", h.id, 0)
  ELSE LET o == h.steps[j]
           s == CASE o.a \in {"next", "try"} -> Next1(T, q, st)
                  [] o.a = "hdr"   -> Code(st, D(st), o.c)
                  [] o.a = "write" -> Body(st, D(st), o.v)
                  [] o.a = "look"  -> st
                  [] o.a = "panic" -> [st EXCEPT !.panic = Value(h.id, o.c)]
       IN IF o.a = "try" /\ s.panic # ""   \* the handler recovers itself
          THEN Steps(T, q, EvX([s EXCEPT !.panic = "", !.lv = SubSeq(@, 1, D(st))], "caught", h.id, j, s.panic), h, j + 1)
          ELSE IF s.panic # "" THEN s ELSE Steps(T, q, Ev(s, "step", h.id, j), h, j + 1)

(* a panic no engine stops leaves the contexts behind *)
Run(es, q) == Serve(<<es, [x \in 1..Len(es) |-> TreesOf(es[x])]>>, 1, q, Fresh)
Status(s) == IF s.out = <<>> THEN 200 ELSE s.out[1]
RECURSIVE Cat(_)
Cat(b) == IF b = <<>> THEN "" ELSE b[1] \o Cat(Tail(b))

(* what becomes of an address: 0 the default, 1 itself, more are refused            *)
Address(as) == IF as = <<>> THEN ":8080" ELSE IF Len(as) = 1 THEN as[1] ELSE "refused"
================================================================================
