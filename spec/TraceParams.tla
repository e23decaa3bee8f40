------------------------------- MODULE TraceParams ------------------------------
EXTENDS Params, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES k, i
vars == <<k, i>>
View == vars
S    == Trace[k]
Init == k \in 1..Len(Trace) /\ i = 0
Step == /\ i < Len(S.ops)
        /\ LET op == S.ops[i + 1] IN Gives(IF op.hit THEN S.ps ELSE <<>>, op.a, op.name, S.obs[i + 1])
        /\ i' = i + 1 /\ UNCHANGED k
Done == /\ i = Len(S.ops) /\ Len(S.obs) = i /\ PrintT("ACCEPTED " \o ToString(k)) /\ i' = i + 1 /\ UNCHANGED k
Next == Step \/ Done
Spec == Init /\ [][Next]_vars
================================================================================
