-------------------------------- MODULE MCCookie --------------------------------
(* Every combination of attributes, after an earlier cookie of the same or another  *)
(* name, and every read of a small request.                                         *)
EXTENDS Cookie, Json, FiniteSets
VARIABLES args, cs
A(t, v) == [t |-> t, v |-> v]
Nil == A("nil", "")
Ages == {Nil, A("int", "0"), A("int", "5"), A("int", "-3"), A("int64", "86400"), A("string", "9")}
Paths == {Nil, A("string", ""), A("string", "/p")}
Domains == {Nil, A("string", "d.com")}
Secures == {Nil, A("bool", "true"), A("bool", "false"), A("int", "1")}
Https == {Nil, A("bool", "true"), A("bool", "false")}
Sites == {Nil, A("site", "Lax"), A("site", "None")}
Full == {<<a, p, d, s, h, t>> : a \in Ages, p \in Paths, d \in Domains, s \in Secures, h \in Https, t \in Sites}
Cs == {<<>>, <<<<"a", "1">>>>, <<<<"a", "1">>, <<"a", "2">>>>, <<<<"b", "x<">>, <<"a", "t">>>>}
Init == (\E f \in Full, n \in {2, 6} : args = SubSeq(f, 1, n)) /\ cs \in Cs
Next == UNCHANGED <<args, cs>>
Spec == Init /\ [][Next]_<<args, cs>>
M == Made("c", "v", args)
ExactlyTheAttributes ==
  /\ (M.age # "") = (args[1].t \in Ints /\ args[1].v # "0")
  /\ M.path = "/" \/ M.path = args[2].v
  /\ M.domain # "" => M.domain = args[3].v
  /\ M.http => args[5].v = "true"
FirstOfName == \A n \in {"a", "b"} : Read(cs, n) = (IF \E j \in 1..Len(cs) : cs[j][1] = n THEN Named(cs, n)[1][2] ELSE "")
EscapedIsSafe == LET e == Call(cs, "CookieEscape", "b") IN ~Contains(e, "<")
Set(n) == [a |-> "set", name |-> n, value |-> "v", args |-> IF n = "z" THEN <<>> ELSE args]
Get(a, n) == [a |-> a, name |-> n, value |-> "", args |-> <<>>]
Emit == PrintT("SCEN " \o ToJson([id |-> "mc", cs |-> cs, ops |-> <<Set("z"), Set("c"), Set("c"), Get("Cookie", "a"), Get("CookieInt", "a"), Get("CookieBool", "a"),
          Get("CookieEscape", "b"), Get("CookieUint64", "b")>>]))
================================================================================
