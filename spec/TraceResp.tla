-------------------------------- MODULE TraceResp -------------------------------
(* Requests, one after the other on one connection, and what the client received.   *)
EXTENDS Resp, IOUtils
Prop  == IOEnv.PROP
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES k, i
vars == <<k, i>>
View == vars
S    == Trace[k]
Init == k \in 1..Len(Trace) /\ i = 0
Labels == {"Content-Description", "Content-Transfer-Encoding", "Content-Disposition", "Expires", "Pragma", "Cache-Control"}
Checked(req) == ({"Set-Cookie", "Content-Range"} \cup {req.ops[j].name : j \in {x \in 1..Len(req.ops) : req.ops[x].a \in {"set", "add"}}}) \ {CT, "Content-Disposition"}
Answered(req, o) ==
  LET f == Final(req) IN
  /\ o.err = "" /\ o.panic = ""
  /\ Len(o.errs) = Len(f.errs)
  /\ \A j \in 1..Len(f.errs) : o.errs[j] = f.errs[j] \/ (req.ops[j].a \in {"JSON", "XML"} /\ f.code \in {204, 304})   \* no body allowed
  /\ o.code = f.code
  /\ f.free \/ (IF HasBody(req, f.code) THEN o.body = f.body ELSE o.body = "")
  /\ HasBody(req, f.code) /\ f.canon # "" => o.canon = f.canon
  /\ f.ctfree \/ f.code = 304 \/ o.h[CT] = Values(f.sent, CT)
                                 \/ (Values(f.sent, CT) = <<>> /\ f.body # "")   \* net/http types a body sent after an explicit status
  /\ f.lib \/ \A n \in Checked(req) : o.h[n] = Values(f.sent, n)
  /\ Values(f.sent, "Location") # <<>> => o.loc = Values(f.sent, "Location")[1]
  /\ LET d == Values(f.sent, "Content-Disposition")
         u == o.h["Content-Disposition"]
     IN IF d = <<>> THEN u = <<>>
        ELSE /\ Len(u) = 1
             /\ LET kind == SubSeq(d[1], 1, Index(d[1], ";") - 1) IN Disposed(u[1], kind, From(d[1], Len(kind) + 2))
  \* a download that failed leaves nothing behind
  /\ Values(f.sent, "Content-Disposition") = <<>> /\ ~f.lib => \A n \in Labels : o.h[n] = Values(f.sent, n)
  /\ f.code \in {200, 206} /\ Values(f.sent, "Content-Disposition") # <<>> =>
       \A n \in {"Content-Description", "Content-Transfer-Encoding"} : o.h[n] = Values(f.sent, n)
Step == /\ i < Len(S.reqs) /\ Answered(S.reqs[i + 1], S.obs[i + 1])
        /\ i' = i + 1 /\ UNCHANGED k
Done == /\ i = Len(S.reqs) /\ Len(S.obs) = i /\ S.open = 0 /\ PrintT("ACCEPTED " \o ToString(k)) /\ i' = i + 1 /\ UNCHANGED k
Next == Step \/ Done
Spec == Init /\ [][Next]_vars
================================================================================
