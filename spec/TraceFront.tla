------------------------------- MODULE TraceFront -------------------------------
(* Are the recorded route tables and requests behaviours of the Front           *)
(* specification?  One behaviour per scenario: register its routes one by one,  *)
(* then serve its requests one by one.  PROP selects which clause of the        *)
(* specification judges the observations.                                       *)
EXTENDS Front, Json, IOUtils
Prop  == IOEnv.PROP
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES k, i, trees
vars == <<k, i, trees>>
View == <<k, i>>

S  == Trace[k]
NR == Len(S.routes)
Init == k \in 1..Len(Trace) /\ i = 0 /\ trees = NoTrees

RouteOf(o) ==  \* the route whose handler ran, 0 if none
  LET I == {j \in 1..Len(o.ran) : HasPrefix(o.ran[j], "R")}
  IN IF I = {} THEN 0 ELSE CHOOSE r \in 1..NR : "R" \o ToString(r) = o.ran[MinOf(I)]
PsMap(o) == [n \in {o.ps[j][1] : j \in 1..Len(o.ps)} |-> (CHOOSE p \in {o.ps[j] : j \in 1..Len(o.ps)} : p[1] = n)[2]]
Marks(c, n) == [j \in 1..n |-> c \o ToString(j)]

Accept(q, o, n) ==
  LET gate == Gate(q)
      r    == RouteOf(o)
      m    == MatchTree(S.res, trees[q.m], q.path)
      nf   == Marks("B", S.before) \o Marks("N", S.nf - 1) \o <<"E" \o ToString(S.nf)>>
  IN /\ o.panic = ""
     /\ CASE Prop = "R01" ->
               gate = 0 => /\ r = m.r
                           /\ Len(o.ran) > 0 => o.full = (IF r = 0 THEN "" ELSE S.routes[r].uri)
                           /\ ~o.drift
          [] Prop = "R02" ->
               gate = 0 => IF r = 0 THEN o.ps = <<>>
                           ELSE /\ ~o.drift
                                /\ Fits(S.res, PatternSegs(S.routes[r].uri), PathSegs(q.path)) =>
                                     PsMap(o) = CapturesOf(S.res, PatternSegs(S.routes[r].uri), q.path)
          [] Prop = "R03" ->
               IF gate # 0 THEN o.code = gate /\ o.ran = <<>> /\ o.sent = 1
               ELSE /\ r # 0 => q.m \in MethodsOf(S.routes[r].m, S.excl)
                    /\ o = S.obs2[n]
          [] Prop = "R04" -> o = S.obs2[n]
          [] Prop = "R05" ->
               (gate = 0 /\ m.r = 0) =>
                  IF S.nf = 0 THEN o.ran = <<>> /\ o.code = 404 /\ o.sent = 1
                  ELSE o.ran = nf /\ o.ps = <<>> /\ o.code = 404

Register == /\ i < NR /\ S.built = ""
            /\ i' = i + 1
            /\ trees' = AddRoute(trees, S.routes[i + 1], S.excl, i + 1)
            /\ UNCHANGED k
Serve == LET n == i - NR + 1 IN
         /\ i >= NR /\ n <= Len(S.reqs) /\ S.built = ""
         /\ Accept(S.reqs[n], S.obs[n], n)
         /\ i' = i + 1 /\ UNCHANGED <<k, trees>>
Done == /\ i = NR + Len(S.reqs) /\ S.built = ""
        /\ PrintT("ACCEPTED " \o ToString(k))
        /\ i' = i + 1 /\ UNCHANGED <<k, trees>>
Next == Register \/ Serve \/ Done
Spec == Init /\ [][Next]_vars
================================================================================
