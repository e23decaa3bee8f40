------------------------------- MODULE TraceMount -------------------------------
(* Recorded requests to engines mounted in engines, and attempts to serve.          *)
EXTENDS Mount, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES k, i
vars == <<k, i>>
View == vars
S    == Trace[k]
Init == k \in 1..Len(Trace) /\ i = 0
Set(q) == {q[j] : j \in 1..Len(q)}
SameEv(a, o) == /\ o.e = a.e /\ o.h = a.h /\ o.j = a.j /\ o.w = a.w /\ o.x = a.x /\ o.c = a.c /\ o.full = a.full
                /\ Set(o.ps) = a.ps /\ Set(o.env) = a.env
Accept(q, o) ==
  LET s == Run(S.engines, q) IN
  /\ Len(o.evs) = Len(s.evs) /\ \A j \in 1..Len(s.evs) : SameEv(s.evs[j], o.evs[j])
  /\ o.esc = (s.panic # "") /\ (S.how = "direct" => o.val = s.panic)
  /\ IF S.how = "direct" THEN o.codes = s.out /\ (s.free \/ o.body = Cat(s.body))
     ELSE o.reached /\ (s.panic = "" => /\ o.codes = <<Status(s)>> /\ (s.free \/ q.m = "HEAD" \/ o.body = Cat(s.body)))
(* an address that cannot be served on is told *)
AcceptListen == S.refused \in {"error", "panic"}
Step == /\ i < Len(S.qs) /\ Accept(S.qs[i + 1], S.obs[i + 1]) /\ i' = i + 1 /\ UNCHANGED k
Done == /\ i = Len(S.qs) /\ (S.how = "refuse" => AcceptListen)
        /\ PrintT("ACCEPTED " \o ToString(k)) /\ i' = i + 1 /\ UNCHANGED k
Next == Step \/ Done
Spec == Init /\ [][Next]_vars
================================================================================
