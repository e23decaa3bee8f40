------------------------------- MODULE TraceCookie ------------------------------
EXTENDS Cookie, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES k, i, jar
vars == <<k, i, jar>>
View == <<k, i>>
S    == Trace[k]
Init == k \in 1..Len(Trace) /\ i = 0 /\ jar = <<>>
Step == /\ i < Len(S.ops)
        /\ LET op == S.ops[i + 1] o == S.obs[i + 1] IN
           /\ o.panic = ""
           /\ IF op.a = "set"
              THEN /\ jar' = Append(jar, Made(op.name, op.value, op.args))
                   /\ o.n = Len(jar')          \* one header more
              ELSE /\ o.v = Call(S.cs, op.a, op.name) /\ UNCHANGED jar
        /\ i' = i + 1 /\ UNCHANGED k
Done == /\ i = Len(S.ops) /\ Len(S.obs) = i /\ S.jar = jar
        /\ PrintT("ACCEPTED " \o ToString(k)) /\ i' = i + 1 /\ UNCHANGED <<k, jar>>
Next == Step \/ Done
Spec == Init /\ [][Next]_vars
================================================================================
