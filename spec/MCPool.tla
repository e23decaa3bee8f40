--------------------------------- MODULE MCPool ---------------------------------
(* The engine's pool of recycled contexts implements Pool: whatever earlier or       *)
(* concurrent requests left in a context, each request sees what it would alone.     *)
(* A context is a record of the fields handlers can see; Reset are those the engine  *)
(* resets or sets anew when it takes a context.                                      *)
EXTENDS Pool, Json
CONSTANTS Width,   \* requests in progress at once
          Total,   \* requests altogether
          Sets, KindSet, Cfgs, Reset
VARIABLES cfg, reqs, st, own, ctx, free, parsedOf, left, hist
vars == <<cfg, reqs, st, own, ctx, free, parsedOf, left, hist>>
O(a, n, v, c) == [a |-> a, name |-> n, v |-> v, n |-> c]
Ret == O("ret", "", "", 0)
(* scripts of two-handler chains *)
Script == [ set   |-> <<O("set", "a", "1", 0), O("form", "", "", 0), Ret, O("set", "a", "2", 0), Ret>>,
            head  |-> <<O("head", "", "", 201), O("forms", "", "", 0), Ret>>,
            next  |-> <<O("next", "", "", 0), O("write", "", "w", 0), Ret, O("has", "a", "", 0), Ret>>,
            die   |-> <<O("set", "b", "1", 0), O("form", "", "", 0), O("die", "", "", 0)>>,
            plain |-> <<Ret, Ret>>,
            late  |-> <<Ret, O("head", "", "", 404), O("next", "", "", 0), Ret>> ]
Q(kind, r) == [kind |-> kind, vals |-> <<"v" \o ToString(r), "w" \o ToString(r)>>, form |-> <<"f" \o ToString(r)>>]
C(w, code, env, ps, full, nxt, parsed) == [w |-> w, code |-> code, env |-> env, ps |-> ps, full |-> full, nxt |-> nxt, parsed |-> parsed]
New == C(FALSE, 0, NoEnv, {}, "", 1, FALSE)
SecondCfg == {[nb |-> 1, nh |-> 1, nf |-> 0, rec |-> FALSE], [nb |-> 1, nh |-> 1, nf |-> 1, rec |-> TRUE]}
OneCfg == {[nb |-> 1, nh |-> 1, nf |-> 1, rec |-> TRUE]}

Init == cfg \in Cfgs /\ reqs = <<>> /\ st = <<>> /\ own = <<>> /\ ctx = <<>> /\ free = {} /\ parsedOf = <<>> /\ left = <<>> /\ hist = <<>>
Running == {r \in 1..Len(st) : ~st[r].done}
Taken(c, q) == \* reset, then set up for q
  LET f(x, new) == IF x \in Reset THEN new ELSE ctx[c][x]
  IN C(f("w", FALSE), f("code", 0), f("env", NoEnv), f("ps", Params(q)), f("full", Kinds[q.kind].full), f("nxt", 1), f("parsed", FALSE))
Bare(q)  == q.kind \in DOMAIN Refused                    \* takes no context
Short(q) == Unrouted(q) /\ cfg.nf = 0                    \* gives it back at once
Log(op, r) == [a |-> op.a, name |-> op.name, v |-> op.v, n |-> op.n, r |-> r]
Started(q, c, cs) ==
  LET r == Len(st) + 1
      b == Begin(cfg, q)
      x == IF Bare(q) THEN cs ELSE IF Short(q) THEN [cs EXCEPT ![c].w = TRUE, ![c].code = 404] ELSE [cs EXCEPT ![c].nxt = @ + 1]
  IN /\ reqs' = Append(reqs, q) /\ st' = Append(st, b)
     /\ own' = Append(own, IF Bare(q) \/ Short(q) THEN 0 ELSE c)
     /\ ctx' = x
     /\ free' = IF Bare(q) THEN free ELSE IF Short(q) THEN free \cup {c} ELSE free \ {c}
     /\ parsedOf' = Append(parsedOf, FALSE)
     /\ hist' = Append(hist, Log(O("start", "", "", 0), r))
     /\ UNCHANGED cfg
Arrive ==
  /\ Len(st) < Total /\ Cardinality(Running) < Width
  /\ \E kd \in KindSet, sc \in Sets :
       LET r == Len(st) + 1 q == Q(kd, r) IN
       /\ (Bare(q) \/ Short(q)) => sc = "plain"
       /\ left' = Append(left, IF Bare(q) \/ Short(q) THEN <<>> ELSE Script[sc])
       /\ \/ Bare(q) /\ Started(q, 0, ctx)
          \/ ~Bare(q) /\ \E c \in free : Started(q, c, [ctx EXCEPT ![c] = Taken(c, q)])
          \/ ~Bare(q) /\ free = {} /\ Started(q, Len(ctx) + 1, Append(ctx, [New EXCEPT !.ps = Params(q), !.full = Kinds[q.kind].full]))
(* the concrete effect of an operation on the context that runs it *)
Effect(c, q, op) ==
  LET x == ctx[c]
      n == ChainLen(cfg, q)
      wr(code) == IF x.w THEN x ELSE [x EXCEPT !.w = TRUE, !.code = code]
  IN CASE op.a = "set" -> IF op.name \in DOMAIN x.env THEN x ELSE [x EXCEPT !.env = [y \in DOMAIN @ \cup {op.name} |-> IF y = op.name THEN op.v ELSE @[y]]]
       [] op.a = "head" -> wr(op.n)
       [] op.a = "write" -> wr(200)
       [] op.a \in {"form", "forms"} -> [x EXCEPT !.parsed = TRUE]
       [] op.a = "next" -> IF x.nxt <= n THEN [x EXCEPT !.nxt = @ + 1] ELSE x
       [] op.a = "ret" -> IF ~x.w /\ x.nxt <= n THEN [x EXCEPT !.nxt = @ + 1] ELSE x
       [] OTHER -> x
Do == \E r \in Running :
  /\ left[r] # <<>>
  /\ LET op == left[r][1]
         q  == reqs[r]
         s2 == After(cfg, q, st[r], op)
         c  == own[r]
         e  == Effect(c, q, op)
     IN /\ st' = [st EXCEPT ![r] = s2]
        /\ left' = [left EXCEPT ![r] = Tail(@)]
        /\ hist' = Append(hist, Log(op, r))
        /\ parsedOf' = IF op.a \in {"form", "forms"} /\ ~ctx[c].parsed THEN [parsedOf EXCEPT ![r] = TRUE] ELSE parsedOf
        /\ IF s2.done
           THEN /\ own' = [own EXCEPT ![r] = 0]
                /\ ctx' = [ctx EXCEPT ![c] = [e EXCEPT !.w = s2.w, !.code = s2.code]]
                /\ free' = IF s2.esc THEN free ELSE free \cup {c}      \* a panic loses the context
           ELSE own' = own /\ ctx' = [ctx EXCEPT ![c] = e] /\ free' = free
  /\ UNCHANGED <<cfg, reqs>>
Next == Arrive \/ Do
Spec == Init /\ [][Next]_vars

(* I02 *)
Exclusive == \A r \in Running : own[r] # 0 /\ own[r] \notin free /\ \A s \in Running : own[s] = own[r] => s = r
(* I01, I02: the context shows what the request alone would show *)
AsAlone == \A r \in Running :
  LET c == ctx[own[r]] s == st[r] IN
  c.w = s.w /\ c.code = s.code /\ c.env = s.env /\ c.ps = Params(reqs[r]) /\ c.full = Kinds[reqs[r].kind].full /\ c.nxt = s.nxt
FormIsOwn == \A r \in Running : ctx[own[r]].parsed => parsedOf[r]
NoScriptLeft == \A r \in 1..Len(st) : st[r].done => left[r] = <<>>
Ended == Len(st) = Total /\ Running = {}
Json1(q) == [kind |-> q.kind, vals |-> q.vals, form |-> q.form, post |-> 0, script |-> <<>>]
Emit == Ended => PrintT("SCEN " \o ToJson([id |-> "mc", mode |-> "gate", cfg |-> [nb |-> cfg.nb, nh |-> cfg.nh, nf |-> cfg.nf, rec |-> cfg.rec, stat |-> TRUE],
          reqs |-> [r \in 1..Len(reqs) |-> Json1(reqs[r])], lanes |-> 0, ops |-> hist]))
================================================================================
