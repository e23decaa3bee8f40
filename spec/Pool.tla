----------------------------------- MODULE Pool ---------------------------------
(* What one request is alone: no other request, earlier or at the same time,        *)
(* occurs in this module.  cfg: [nb, nh, nf, rec] numbers of middleware, route      *)
(* handlers and not-found handlers, and whether the recovery middleware comes first. *)
(* q: [kind, vals, form, ...]                                                        *)
EXTENDS Str, TLC, FiniteSets
Kinds == [s  |-> [full |-> "/s",               names |-> <<>>],
          t  |-> [full |-> "/u/me",            names |-> <<>>],
          u  |-> [full |-> "/u/<id>",          names |-> <<"id">>],
          ux |-> [full |-> "/u/<id>/x/<name>", names |-> <<"id", "name">>],
          f  |-> [full |-> "/f/*",             names |-> <<"*0">>],
          y  |-> [full |-> "/y/<n ~ (\\d+)>/<_>", names |-> <<"n">>],
          z  |-> [full |-> "/z/<n,name ~ (\\w+)-(\\w+)>", names |-> <<"n", "name">>],
          oa |-> [full |-> "/o/<a ~ ^(\\d+)$>", names |-> <<"a">>],   \* of two that match, the first
          ob |-> [full |-> "/o/<b ~ (\\w+)>", names |-> <<"b">>],
          pa |-> [full |-> "/p/<x>/one", names |-> <<"x">>],
          pb |-> [full |-> "/p/<y>/*", names |-> <<"y", "*0">>],
          w  |-> [full |-> "/w/<_>", names |-> <<>>],
          s2 |-> [full |-> "/s", names |-> <<>>],
          t2 |-> [full |-> "/u/me", names |-> <<>>],
          none |-> [full |-> "", names |-> <<>>],      \* a path no route has
          part |-> [full |-> "", names |-> <<>>]]      \* one that fits a route only at first
Refused == [old |-> 406, meth |-> 405]
Unrouted(q) == q.kind \in {"none", "part"}
Params(q) == LET n == Kinds[q.kind].names IN {<<n[j], q.vals[j]>> : j \in 1..Len(n)}
ChainLen(cfg, q) == cfg.nb + (IF Unrouted(q) THEN cfg.nf ELSE cfg.nh)

NoEnv == [x \in {} |-> ""]
Dead(code) == [stack |-> <<>>, nxt |-> 1, w |-> FALSE, code |-> code, env |-> NoEnv, body |-> "", parsed |-> FALSE, done |-> TRUE, esc |-> FALSE]
Launch(st) == [st EXCEPT !.stack = Append(@, st.nxt), !.nxt = @ + 1]
Over(cfg, st) == [st EXCEPT !.done = TRUE, !.w = @ \/ cfg.rec, !.code = IF cfg.rec /\ ~st.w THEN 200 ELSE @]
Begin(cfg, q) ==
  IF q.kind \in DOMAIN Refused THEN Dead(Refused[q.kind])
  ELSE IF Unrouted(q) /\ cfg.nf = 0 THEN Dead(404)
  ELSE Launch([Dead(0) EXCEPT !.done = FALSE])
Pop(st) == [st EXCEPT !.stack = SubSeq(@, 1, Len(@) - 1)]
Write(st, c) == IF st.w THEN st ELSE [st EXCEPT !.w = TRUE, !.code = c]

After(cfg, q, st, op) ==
  CASE op.a = "ret" -> LET p == Pop(st) IN
                       IF ~p.w /\ p.nxt <= ChainLen(cfg, q) THEN Launch(p) ELSE IF p.stack = <<>> THEN Over(cfg, p) ELSE p
    [] op.a = "next" -> IF st.nxt <= ChainLen(cfg, q) THEN Launch(st) ELSE st
    [] op.a = "die" -> IF cfg.rec THEN [Write(st, 500) EXCEPT !.done = TRUE, !.stack = <<>>]
                       ELSE [st EXCEPT !.done = TRUE, !.esc = TRUE, !.stack = <<>>]
    [] op.a = "set" -> IF op.name \in DOMAIN st.env THEN st
                       ELSE [st EXCEPT !.env = [x \in DOMAIN @ \cup {op.name} |-> IF x = op.name THEN op.v ELSE @[x]]]
    [] op.a = "bind" -> [st EXCEPT !.parsed = TRUE]
    [] op.a = "head" -> Write(st, op.n)
    [] op.a = "write" -> [Write(st, 200) EXCEPT !.body = @ \o op.v]
    [] OTHER -> st
(* what the operation itself returns *)
Gives(q, st, op) ==
  CASE op.a = "set" -> IF op.name \in DOMAIN st.env THEN "panic" ELSE ""
    [] op.a = "form" -> IF q.form = <<>> THEN "" ELSE q.form[1]
    [] op.a = "forms" -> Join(q.form, "|")
    [] op.a = "bind" -> IF q.bad /\ ~st.parsed THEN "error" ELSE Join(q.form, "|")   \* a form that cannot be parsed is told once
    [] op.a = "has" -> IF op.name \in DOMAIN st.env THEN "yes" ELSE "no"
    [] OTHER -> ""
(* what is seen afterwards: by the handler then running, or by the client *)
Seen(r, q, st) ==
  [r |-> r, pos |-> st.stack[Len(st.stack)], w |-> st.w, code |-> st.code, full |-> Kinds[q.kind].full,
   ps |-> Params(q), env |-> {<<n, st.env[n]>> : n \in DOMAIN st.env}]
Response(st) == [esc |-> st.esc, codes |-> IF st.w \/ st.code # 0 THEN <<st.code>> ELSE <<>>]
================================================================================
