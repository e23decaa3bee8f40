---------------------------------- MODULE MCForm --------------------------------
(* Every small request against every accessor.                                      *)
EXTENDS Form, Json
CONSTANTS MaxPairs
VARIABLES q
Ps == {<<"a", "1">>, <<"a", " x ">>, <<"a", "">>, <<"m[k]", "7">>}
Lists == UNION {[1..n -> Ps] : n \in 0..MaxPairs}
Init == \E bad \in {"", "query", "body"}, m \in {"GET", "POST", "PUT", "DELETE"}, ct \in {"url", "multi", "other"}, l \in Lists, b \in Lists :
          (bad = "" \/ Len(l) + Len(b) <= 2) /\ q = [bad |-> bad, m |-> m, ct |-> ct, query |-> l, body |-> b]
Next == UNCHANGED q
Spec == Init /\ [][Next]_q
Op(a, n) == [a |-> a, name |-> n, def |-> "9", dlist |-> <<"d">>, dmap |-> <<<<"dk", "dv">>>>]
Ops == <<Op("Query", "a"), Op("DefaultQuery", "a"), Op("QueryArray", "a"), Op("DefaultQueryArray", "a"), Op("QueryInt", "a"), Op("DefaultQueryInt", "a"),
         Op("QueryMap", "m"), Op("DefaultQueryMap", "m"), Op("DefaultQueryMap", "a"), Op("QueryBool", "a")>>
C(a) == Call(q, Op(a, "a"))
(* Q01 *)
DefaultOnlyWhenAbsent == /\ C("DefaultQuery") = (IF Present(q, "a") THEN C("Query") ELSE Str1("9"))
                         /\ C("DefaultQueryArray") = (IF Present(q, "a") THEN C("QueryArray") ELSE List(<<"d">>))
                         /\ C("DefaultQueryInt") = (IF Present(q, "a") THEN C("QueryInt") ELSE Str1("9"))
BodyBeforeQuery == (HasBody(q) /\ q.ct = "url" /\ Named(q.body, "a") # <<>>) => C("Query").s = TrimSpace(Named(q.body, "a")[1])
QueryBeforeMulti == (q.ct = "multi" /\ Named(q.query, "a") # <<>>) => C("Query").s = TrimSpace(Named(q.query, "a")[1])
BodyOnlyWithMethod == ~HasBody(q) => \A n \in {"a", "m[k]"} : Len(Values(q, n)) = Len(Named(q.query, n))
NothingLost == HasBody(q) /\ q.ct # "other" => Len(C("QueryArray").l) = Len(Named(q.query, "a")) + Len(Named(q.body, "a"))
Emit == PrintT("SCEN " \o ToJson([id |-> "mc", qs |-> <<[bad |-> q.bad, m |-> q.m, ct |-> q.ct, query |-> q.query, body |-> q.body, ops |-> Ops]>>]))
================================================================================
