-------------------------------- MODULE TraceForm -------------------------------
EXTENDS Form, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES k, r, i
vars == <<k, r, i>>
View == vars
S    == Trace[k]
Init == k \in 1..Len(Trace) /\ r = 1 /\ i = 0
Q    == S.qs[r]
Set(q) == {q[j] : j \in 1..Len(q)}
(* the first accessor says that the form cannot be read; later ones find what could be, or say it again *)
Accept(op, o) == IF Unread(Q) /\ (i = 0 \/ o.panic # "" \/ Q.ct = "multi") THEN (i = 0 => o.panic # "") ELSE LET w == Call(Q, op) IN
  /\ o.panic = "" /\ o.s = w.s /\ o.l = w.l
  \* one entry per key; names such as a[k] and a[k]x have the same key, and either value may be there
  /\ Set(o.m) \subseteq w.m /\ {p[1] : p \in Set(o.m)} = {p[1] : p \in w.m} /\ Len(o.m) = Cardinality({p[1] : p \in w.m})
Step == /\ r <= Len(S.qs)
        /\ IF i < Len(Q.ops)
           THEN Accept(Q.ops[i + 1], S.obs[r][i + 1]) /\ i' = i + 1 /\ UNCHANGED r
           ELSE Len(S.obs[r]) = Len(Q.ops) /\ r' = r + 1 /\ i' = 0
        /\ UNCHANGED k
Done == /\ r = Len(S.qs) + 1 /\ PrintT("ACCEPTED " \o ToString(k)) /\ r' = r + 1 /\ UNCHANGED <<k, i>>
Next == Step \/ Done
Spec == Init /\ [][Next]_vars
================================================================================
