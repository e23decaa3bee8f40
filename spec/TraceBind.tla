-------------------------------- MODULE TraceBind -------------------------------
(* Recorded bindings (B01-B04).                                                    *)
EXTENDS Bind, Json, IOUtils
Prop  == IOEnv.PROP
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES k, n
vars == <<k, n>>
View == vars
S    == Trace[k]
Init == k \in 1..Len(Trace) /\ n = 0

Pairs2(q) == {<<q[j].n, q[j].v>> : j \in 1..Len(q)}
(* an error must be told; what was bound without one must be right. B03 only asks whether binding succeeded *)
OkObj(o, b, flat) == /\ o.panic = ""
                     /\ o.err = b.err
                     /\ (~b.err /\ Prop # "B03") => o.val = flat
(* FormFile and SaveUploadedFile of the names asked for *)
OkFiles(o) == \A j \in 1..Len(o.files) :
   LET x  == o.files[j]
       fs == IF Cat(S.q) = "multi" /\ Whole(S.q, "multi") THEN SelectSeq(PartFiles(S.q), LAMBDA y : y.n = x.n) ELSE <<>>
   IN IF fs = <<>> THEN x.v = "none" ELSE x.v = FileText(fs[1]) /\ x.saved = fs[1].s /\ x.bad = ""     \* saving where nothing can be saved is an error
Ok(o) == CASE S.top = "struct" -> LET b == Bound(S.fs, S.q, S.via, S.direct) IN OkObj(o, b, FlatObj(S.fs, b.v.f)) /\ OkFiles(o)
           [] S.top \in {"list", "plist"} -> LET b == BoundList(S.fs, S.top = "plist", S.an, S.q, S.via)
                                             IN OkObj(o, b, FlatV(TopField(S.fs, S.top = "plist", S.an), b.v, ""))
           [] S.top \in {"nilobj", "value", "intp", "mapint", "mapints"} -> o.panic = "" /\ o.err     \* nothing can be bound to these
           [] S.top \in {"mapstr", "maplist"} -> LET b == BoundMap(S.q, S.via, S.direct, S.top = "maplist") IN
                       o.panic = "" /\ o.err = b.err /\ (~b.err => Pairs2(o.m) = b.m)
Step == n < Len(S.obs) /\ Ok(S.obs[n + 1]) /\ n' = n + 1 /\ UNCHANGED k
Done == n = Len(S.obs) /\ PrintT("ACCEPTED " \o ToString(k)) /\ n' = n + 1 /\ UNCHANGED k
Next == Step \/ Done
Spec == Init /\ [][Next]_vars
================================================================================
