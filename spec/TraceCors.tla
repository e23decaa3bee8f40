-------------------------------- MODULE TraceCors -------------------------------
EXTENDS Cors, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES k, i
vars == <<k, i>>
View == vars
S    == Trace[k]
Init == k \in 1..Len(Trace) /\ i = 0
Elems(q) == {q[j] : j \in 1..Len(q)}
C == S.cfg
Accept(q, o) ==
  /\ o.panic = ""
  /\ o.acao = Granted(C, q)
  /\ VaryNeeds(q) \subseteq Elems(o.vary)
  /\ (q.vary # "" => q.vary \in Elems(o.vary))
  /\ o.creds = (IF C.creds THEN "true" ELSE "")
  /\ IF Preflight(q)
     THEN /\ o.code = 204 /\ o.ran = <<"b">> /\ o.size = 0
          /\ o.methods = Join(MethodsOf(C), ",")
          /\ o.headers = PreflightHeaders(C, q)
          /\ o.age = (IF C.age > 0 THEN ToString(C.age) ELSE "")
     ELSE /\ o.code = (IF q.do \in {"", "write"} THEN 200 ELSE 201) /\ o.size = (IF q.do \in {"", "head"} THEN 0 ELSE 4)
          /\ o.ran = <<"b", "m", "h">>
          /\ o.methods = "" /\ o.headers = "" /\ o.age = ""   \* these answer a preflight
          /\ o.expose = Join(C.expose, ",")
Step == /\ i < Len(S.qs) /\ Accept(S.qs[i + 1], S.obs[i + 1]) /\ i' = i + 1 /\ UNCHANGED k
Done == /\ i = Len(S.qs) /\ PrintT("ACCEPTED " \o ToString(k)) /\ i' = i + 1 /\ UNCHANGED k
Next == Step \/ Done
Spec == Init /\ [][Next]_vars
================================================================================
