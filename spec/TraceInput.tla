------------------------------- MODULE TraceInput -------------------------------
EXTENDS Input, Json, IOUtils, TLC
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES k, r, i, st
vars == <<k, r, i, st>>
View == <<k, r, i>>
S    == Trace[k]
Q    == S.qs[r]
O    == S.obs[r]
Init == k \in 1..Len(Trace) /\ r = 1 /\ i = 0 /\ st = Fresh
Set(q) == {q[j] : j \in 1..Len(q)}
Accept(op, o) == LET a == Answer(Q, st, op) IN
  /\ o.panic = "" /\ o.s = a.s /\ o.n = a.n /\ o.eq
  /\ (a.n > 0 => o.off = a.off)
  /\ (o.err = a.err \/ ((st.closed \/ st.broken) /\ op.a \in {"bytes", "text", "read", "all"}))
Step == /\ r <= Len(S.qs)
        /\ IF i < Len(Q.ops)
           THEN /\ Len(O.rs) >= i + 1 /\ Accept(Q.ops[i + 1], O.rs[i + 1])
                /\ st' = After(Q, st, Q.ops[i + 1]) /\ i' = i + 1 /\ UNCHANGED r
           ELSE /\ Len(O.rs) = Len(Q.ops) /\ O.kept   \* what was handed out stays as it was
                /\ Set(O.out) = Set(st.out) /\ Len(O.out) = Len(st.out)
                /\ r' = r + 1 /\ i' = 0 /\ st' = Fresh
        /\ UNCHANGED k
Done == /\ r = Len(S.qs) + 1 /\ PrintT("ACCEPTED " \o ToString(k)) /\ r' = r + 1 /\ UNCHANGED <<k, i, st>>
Next == Step \/ Done
Spec == Init /\ [][Next]_vars
================================================================================
