--------------------------------- MODULE MCFront ---------------------------------
(* A small engine with several methods and the optional static table: methods    *)
(* are isolated (R03), the static table changes no answer (R04), and what runs    *)
(* for an unmatched request (R05).                                                *)
EXTENDS Front, Json
CONSTANTS Two, MaxRoutes, Pats, Ms, Exclusions, PathLen
VARIABLES routes, trees, static, excl
Vars == <<routes, trees, static, excl>>

Rs == [x \in {} |-> 0]
NB == 1   NU == 1   NN == 1
SeqsUpTo(T, n) == UNION {[1..m -> T] : m \in 1..n}
Paths == {"/" \o Join(q, "/") : q \in SeqsUpTo({"a", "b"}, PathLen)} \cup {"/", "/a/"}

AllLiteral(segs) == \A j \in 1..Len(segs) : ParseSeg(segs[j]).k = LIT
NoStatic == [m \in Methods |-> [x \in {} |-> 0]]

SomeExclusions == {<<>>, <<"HEAD", "OPTIONS">>, <<"GET">>}
Init == routes = <<>> /\ trees = NoTrees /\ static = NoStatic /\ excl \in Exclusions

(* the handler-bearing end node a registration lands on (an earlier alias keeps it) *)
Owner(m, segs) == MinOf({j \in 1..Len(routes) : m \in MethodsOf(routes[j].m, excl) /\ PatternSegs(routes[j].uri) = segs} \cup {Len(routes) + 1})
StaticAdd(f, key, v) == [x \in DOMAIN f \cup {key} |-> IF x = key THEN v ELSE f[x]]
Register(m, p) ==
  LET rt == [m |-> m, uri |-> p]
      ms == MethodsOf(m, excl)
      segs == PatternSegs(p)
  IN /\ Len(routes) < MaxRoutes
     /\ \A j \in 1..Len(routes) : routes[j].uri = p => MethodsOf(routes[j].m, excl) \cap ms = {}
     /\ routes' = Append(routes, rt)
     /\ trees' = AddRoute(trees, rt, excl, Len(routes) + 1)
     /\ static' = [x \in Methods |-> IF x \in ms /\ AllLiteral(segs)
                     THEN StaticAdd(static[x], "/" \o Join(segs, "/"), Owner(x, segs)) ELSE static[x]]
     /\ UNCHANGED excl
Next == \E m \in Ms, p \in Pats : Register(m, p)
Spec == Init /\ [][Next]_Vars

(* the answer of the engine, with and without the static table *)
Answer(st, q) ==
  LET g == Gate(q) IN
  IF g # 0 THEN [code |-> g, ran |-> <<>>, r |-> 0, ps |-> <<>>]
  ELSE LET hit == st /\ q.path \in DOMAIN static[q.m]
           m == IF hit THEN [r |-> static[q.m][q.path], ps |-> <<>>] ELSE MatchTree(Rs, trees[q.m], q.path)
       IN [code |-> IF m.r = 0 THEN 404 ELSE 220,
           ran  |-> IF m.r = 0 THEN (IF NN = 0 THEN <<>> ELSE <<"B", "N">>) ELSE <<"B", "U", "R">>,
           r    |-> m.r, ps |-> m.ps]
Req(m, t, p, u) == [m |-> m, path |-> t, proto |-> p, uri |-> u]
GoodReqs == {Req(m, t, "1.1", "") : m \in {"GET", "POST", "HEAD"}, t \in Paths}
BadReqs  == {Req("GET", "/a", "1.0", ""), Req("GET", "/a", "1.1", "*"), Req("CONNECT", "/a", "1.1", ""),
             Req("TRACE", "/a", "1.1", ""), Req("get", "/a", "1.1", "")}

StaticUnobservable == \A q \in GoodReqs \cup BadReqs : Answer(TRUE, q) = Answer(FALSE, q)
GateFirst == \A q \in BadReqs : Answer(TRUE, q).code \in {405, 406} /\ Answer(TRUE, q).ran = <<>>
(* what one method gets does not depend on the routes of the others *)
RECURSIVE Only(_, _, _)
Only(m, j, t) == IF j > Len(routes) THEN t
                 ELSE Only(m, j + 1, IF m \in MethodsOf(routes[j].m, excl) THEN TreeAdd(t, PatternSegs(routes[j].uri), j) ELSE t)
Isolated == \A m \in Methods : trees[m] = Only(m, 1, EmptyTree)
UnmatchedRunsNotFound == \A q \in GoodReqs :
   LET tab == [j \in 1..Len(routes) |-> IF q.m \in MethodsOf(routes[j].m, excl) THEN PatternSegs(routes[j].uri) ELSE <<"-none-", "-", "-", "-", "-", "-", "-">>]
   IN (\A j \in 1..Len(tab) : ~Fits(Rs, tab[j], PathSegs(q.path))) <=> Answer(FALSE, q).r = 0
FullPathFits == \A q \in GoodReqs : LET a == Answer(FALSE, q) IN
   a.r # 0 => q.m \in MethodsOf(routes[a.r].m, excl) /\ Fits(Rs, PatternSegs(routes[a.r].uri), PathSegs(q.path))

RECURSIVE SeqOf(_)
SeqOf(X) == IF X = {} THEN <<>> ELSE LET x == CHOOSE x \in X : TRUE IN <<x>> \o SeqOf(X \ {x})
Scenario(two) == [id |-> "mc", before |-> NB, use |-> NU, nf |-> NN, st |-> TRUE, excl |-> excl, two |-> two,
             res |-> Rs, reqs |-> SeqOf(GoodReqs \cup BadReqs),
             routes |-> [j \in 1..Len(routes) |-> [m |-> routes[j].m, parts |-> <<routes[j].uri>>, uri |-> routes[j].uri]]]
Emit == Len(routes) = MaxRoutes => PrintT("SCEN " \o ToJson(Scenario(Two)))
================================================================================
