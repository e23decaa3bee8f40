------------------------------ MODULE TraceEnviron ------------------------------
EXTENDS Environ, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES k, i, envs
vars == <<k, i, envs>>
View == <<k, i>>
S    == Trace[k]
Init == k \in 1..Len(Trace) /\ i = 0 /\ envs = [x \in {} |-> Empty]
Op(j) == LET o == S.ops[j] IN [o EXCEPT !.r = ToString(o.r)]
Start(op) == op.a = "start"
Step == /\ i < Len(S.ops)
        /\ LET op == Op(i + 1) o == S.obs[i + 1] IN
           /\ Start(op) \/ op.a \in Moves \/ o = Apply(envs, op)
           /\ envs' = After(envs, op)
        /\ i' = i + 1 /\ UNCHANGED k
Done == /\ i = Len(S.ops) /\ PrintT("ACCEPTED " \o ToString(k)) /\ i' = i + 1 /\ UNCHANGED <<k, envs>>
Next == Step \/ Done
Spec == Init /\ [][Next]_vars
================================================================================
