-------------------------------- MODULE TracePool -------------------------------
(* Recorded operations of several requests on one engine, in the order in which they *)
(* happened (or, for free-running ones, any order that keeps each request's own).    *)
EXTENDS Pool, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES k, i, st
vars == <<k, i, st>>
View == <<k, i>>
S    == Trace[k]
Cfg  == S.cfg
Init == k \in 1..Len(Trace) /\ i = 0 /\ st = <<>>
Set(q) == {q[x] : x \in 1..Len(q)}
Step ==
  /\ i < Len(S.ops)
  /\ LET op == S.ops[i + 1]
         o  == S.obs[i + 1]
         q  == S.reqs[op.r]
         n  == IF op.a = "start" THEN Begin(Cfg, q) ELSE After(Cfg, q, st[op.r], op)
     IN /\ op.a = "start" => op.r = Len(st) + 1
        /\ ~o.shared
        /\ o.v = (IF op.a = "start" THEN "" ELSE Gives(q, st[op.r], op))
        /\ o.done = n.done
        /\ IF n.done THEN [esc |-> o.esc, codes |-> o.codes] = Response(n) /\ (~n.esc /\ ~(op.a = "die") => o.body = n.body)
           ELSE LET v == Seen(op.r, q, n) IN
                /\ o.r = v.r /\ o.pos = v.pos /\ o.w = v.w /\ o.code = v.code /\ o.full = v.full
                /\ Set(o.ps) = v.ps /\ Set(o.env) = v.env /\ Len(o.env) = Cardinality(v.env)
        /\ st' = IF op.a = "start" THEN Append(st, n) ELSE [st EXCEPT ![op.r] = n]
  /\ i' = i + 1 /\ UNCHANGED k
Done == /\ i = Len(S.ops) /\ Len(S.obs) = i /\ S.races = 0
        /\ \A r \in 1..Len(S.kept) : LET y == S.kept[r] IN
             y.any => Set(y.ps) = Params(S.reqs[r]) /\ Set(y.env) = {<<n, st[r].env[n]>> : n \in DOMAIN st[r].env}
        /\ Len(S.alone) = Len(S.calls) /\ Len(S.conc) = Len(S.calls)
        /\ \A c \in 1..Len(S.calls) : \A x \in 1..Len(S.conc[c]) : S.conc[c][x] = S.alone[c]
        /\ PrintT("ACCEPTED " \o ToString(k)) /\ i' = i + 1 /\ UNCHANGED <<k, st>>
Next == Step \/ Done
Spec == Init /\ [][Next]_vars
================================================================================
