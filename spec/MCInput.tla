-------------------------------- MODULE MCInput ---------------------------------
(* Every short program of a handler over small requests.                            *)
EXTENDS Input, Json, TLC
CONSTANTS MaxOps
VARIABLES q, st, hist, got
vars == <<q, st, hist, got>>
Hs == {<<>>, <<<<"X-A", "1">>>>, <<<<"x-a", "1">>, <<"X-A", "2">>, <<"X-B", "">>>>, <<<<"X-AB", "3">>>>}
Op(a, name, n) == [a |-> a, name |-> name, v |-> IF a = "set" THEN "v" \o ToString(Len(hist)) ELSE "", n |-> n]
Init == /\ \E h \in Hs, z \in {<<0, -1>>, <<3, -1>>, <<3, 0>>, <<3, 2>>}, wire \in BOOLEAN, ch \in BOOLEAN :
             q = [m |-> "POST", hs |-> h, size |-> z[1], fail |-> z[2], wire |-> wire, chunked |-> ch, mid |-> IF ch THEN 1 ELSE 2, seed |-> 7]
        /\ st = Fresh /\ hist = <<>> /\ got = <<>>
Do(op) == /\ Len(hist) < MaxOps
          /\ hist' = Append(hist, op) /\ st' = After(q, st, op) /\ UNCHANGED q
          /\ got' = LET a == Answer(q, st, op) IN IF a.n > 0 THEN Append(got, <<a.off, a.n>>) ELSE got
Next == \/ \E a \in {"bytes", "text", "all", "start"} : Do(Op(a, "", 0))
        \/ \E n \in {1, 2, 5} : Do(Op("read", "", n))
        \/ Do(Op("get", "x-A", 0))
        \/ \E n \in {"X-R", "x-r"} : Do(Op("set", n, 0))
Spec == Init /\ [][Next]_vars
(* the body is handed out from its start, in order, without gaps, each byte once    *)
RECURSIVE Sum(_)
Sum(g) == IF g = <<>> THEN 0 ELSE g[Len(g)][2] + Sum(SubSeq(g, 1, Len(g) - 1))
InOrder == \A j \in 1..Len(got) : got[j][1] = Sum(SubSeq(got, 1, j - 1))
NoMore  == Sum(got) <= st.pos /\ st.pos <= End(q) /\ (q.fail < 0 => Sum(got) = st.pos)
AllOnce == \A a \in {"bytes", "text", "all"} : q.fail < 0 => Answer(q, st, [a |-> a, name |-> "", v |-> "", n |-> 0]).n = q.size - Sum(got)
BrokenIsTold == (q.fail >= 0 /\ ~st.closed) => \A a \in {"bytes", "text", "all"} : Answer(q, st, [a |-> a, name |-> "", v |-> "", n |-> 0]).err
OnePerName == \A i, j \in 1..Len(st.out) : i # j => st.out[i][1] # st.out[j][1]
AnyCase == First(q.hs, "X-A") = First(q.hs, "x-a")
Emit == Len(hist) = MaxOps => PrintT("SCEN " \o ToJson([id |-> "mc", qs |-> <<[m |-> q.m, hs |-> q.hs, size |-> q.size, fail |-> q.fail, wire |-> q.wire,
   chunked |-> q.chunked, mid |-> q.mid, seed |-> q.seed, ops |-> hist], [m |-> q.m, hs |-> q.hs, size |-> 4, fail |-> -1, wire |-> FALSE,
   chunked |-> FALSE, mid |-> 0, seed |-> 9, ops |-> hist]>>]))
================================================================================
