-------------------------------- MODULE MCMount ---------------------------------
(* Every small engine in every small engine, and the inner one on its own.          *)
EXTENDS Mount, Json
CONSTANTS MaxOuter, MaxInner
VARIABLES es, q, S, Alone
vars == <<es, q, S, Alone>>
O(a, c) == [a |-> a, c |-> c, v |-> IF a = "write" THEN "b" ELSE ""]
U(id, s) == [id |-> id, k |-> "user", e |-> 0, p |-> "", steps |-> s]
Rec == [id |-> 0, k |-> "recovery", e |-> 0, p |-> "", steps |-> <<>>]
Mnt == [id |-> 0, k |-> "engine", e |-> 2, p |-> "", steps |-> <<>>]
Stp == [id |-> 0, k |-> "strip", e |-> 2, p |-> "/m", steps |-> <<>>]
OuterHs == {<<"U", <<O("try", 0)>>>>, <<"U", <<>>>>, <<"U", <<O("next", 0)>>>>, <<"U", <<O("write", 0)>>>>, <<"U", <<O("next", 0), O("hdr", 403)>>>>, <<"R", <<>>>>, <<"M", <<>>>>, <<"S", <<>>>>}
InnerHs == {<<"U", <<>>>>, <<"U", <<O("hdr", 201)>>>>, <<"U", <<O("write", 0)>>>>, <<"U", <<O("panic", 1)>>>>, <<"U", <<O("next", 0), O("hdr", 202)>>>>, <<"R", <<>>>>}
Mk(x, id) == CASE x[1] = "U" -> U(id, x[2]) [] x[1] = "R" -> Rec [] x[1] = "M" -> Mnt [] x[1] = "S" -> Stp
Lists(H, n, base) == {[j \in 1..Len(l) |-> Mk(l[j], base + j)] : l \in UNION {[1..z -> H] : z \in 1..n}}
E(mids, routes, nf) == [before |-> <<>>, mids |-> mids, routes |-> routes, nf |-> nf]
R(uri, hs) == [m |-> "GET", uri |-> uri, hs |-> hs]
Init == /\ \E o \in Lists(OuterHs, MaxOuter, 0), l \in Lists(InnerHs, MaxInner, 10), kind \in {"route", "nf", "none"} :
             es = <<E(<<>>, <<R("/m/*rest", o), R("/n/:x", o)>>, <<>>),
                    CASE kind = "route" -> E(<<>>, <<R("/m/:id", l), R("/a", l)>>, <<>>)
                      [] kind = "nf" -> E(<<>>, <<R("/zz", l)>>, l)
                      [] kind = "none" -> E(<<>>, <<R("/zz", l)>>, <<>>)>>
        /\ q \in {[m |-> "GET", path |-> "/m/a", proto |-> "1.1", uri |-> ""], [m |-> "GET", path |-> "/n/a", proto |-> "1.1", uri |-> ""]}
        /\ S = Run(es, q) /\ Alone = Run(<<es[2]>>, q)
Next == UNCHANGED vars
Spec == Init /\ [][Next]_vars
Inner(evs) == SelectSeq(evs, LAMBDA v : v.d = 2)
Lift(evs) == [j \in 1..Len(evs) |-> [evs[j] EXCEPT !.d = 2]]
OneStatus == Len(S.out) <= 1
(* an engine that is all there is behaves as on its own; the one around it says so *)
Transparent == LET o == es[1].routes[1].hs IN
   (Len(o) = 1 /\ o[1].k = "engine") => /\ Lift(Alone.evs) = S.evs /\ S.out = Alone.out /\ S.body = Alone.body /\ S.panic = Alone.panic
(* whatever is around it, what its handlers see of their own context is the same *)
Unaffected == LET i == Inner(S.evs) o == es[1].routes[1].hs IN
   (i # <<>> /\ Cardinality({j \in 1..Len(o) : o[j].k \in {"engine", "strip"}}) = 1 /\ \A j \in 1..Len(o) : o[j].k # "strip")
     => Lift(Alone.evs) = i
(* and it leaves the other's parameters and environment alone *)
Kept == \A j \in 1..Len(S.evs) : S.evs[j].d = 1 => /\ S.evs[j].full = (IF HasPrefix(q.path, "/m") THEN "/m/*rest" ELSE "/n/:x")
                                                   /\ S.evs[j].env \subseteq 1..9
FirstStatusStays == \A i, j \in 1..Len(S.evs) : (i < j /\ S.evs[i].d = 1 /\ S.evs[j].d = 1 /\ S.evs[i].w) => S.evs[j].w /\ S.evs[j].c = S.evs[i].c
Emit == PrintT("SCEN " \o ToJson([id |-> "mc", how |-> "direct", engines |-> es, qs |-> <<q, [q EXCEPT !.path = "/m/b/c"], q>>, static |-> FALSE]))
================================================================================
