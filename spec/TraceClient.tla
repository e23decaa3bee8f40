------------------------------- MODULE TraceClient ------------------------------
(* the handler asks everything twice, in two orders                                 *)
EXTENDS Client, Json, IOUtils, TLC
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES k, i
vars == <<k, i>>
View == vars
S    == Trace[k]
Init == k \in 1..Len(Trace) /\ i = 0
Step == i < Len(S.obs) /\ S.panic = "" /\ S.obs[i + 1] = Client(S) /\ i' = i + 1 /\ UNCHANGED k
Done == i = Len(S.obs) /\ i = 2 /\ PrintT("ACCEPTED " \o ToString(k)) /\ i' = i + 1 /\ UNCHANGED k
Next == Step \/ Done
Spec == Init /\ [][Next]_vars
================================================================================
