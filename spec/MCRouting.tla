------------------------------- MODULE MCRouting -------------------------------
(* All route tables up to MaxRoutes over a pool of patterns, all paths up to   *)
(* MaxLen segments: the tree answers exactly the declarative winner, with      *)
(* exactly its captures; "not found" exactly when nothing fits; the static     *)
(* table is consistent with the tree.                                          *)
EXTENDS Routing, Json
CONSTANTS MaxRoutes, PatLen, PathLen
VARIABLES tab, tree

Segs == {"a", "b", "<x ~ (a)>", "<y>", "*", "*f"}
Names == <<"x", "y", "f">>
Rs == "(a)" :> [a |-> [k |-> "grp", n |-> 1, x |-> [k |-> "lit", c |-> "a"]], n |-> 1]

SeqsUpTo(S, n) == UNION {[1..m -> S] : m \in 1..n}
Pats  == {s \in SeqsUpTo(Segs, PatLen) : ~RepeatsName(s)}
Paths == SeqsUpTo({"a", "b", "c"}, PathLen)
PathText(q) == "/" \o Join(q, "/")
Vars == <<tab, tree>>

Init == tab = <<>> /\ tree = EmptyTree
Register(p) == /\ Len(tab) < MaxRoutes
               /\ ~SeqHas(tab, p)
               /\ tab' = Append(tab, p)
               /\ tree' = TreeAdd(tree, p, Len(tab) + 1)
Next == \E p \in Pats : Register(p)
Spec == Init /\ [][Next]_Vars

Agree == \A q \in Paths :
  LET t == PathText(q)
      m == MatchTree(Rs, tree, t)
  IN /\ m.r = Winner(Rs, tab, t)
     /\ m.r = 0 => m.ps = <<>>
     /\ m.r # 0 => ParamMap(m.ps) = CapturesOf(Rs, tab[m.r], t)
NotFoundOnlyIfNothingFits == \A q \in Paths :
  MatchTree(Rs, tree, PathText(q)).r = 0 <=> \A i \in 1..Len(tab) : ~Fits(Rs, tab[i], q)
(* the static table answers path t iff an all-literal route has that path      *)
StaticConsistent == \A i \in 1..Len(tab) :
  (\A j \in 1..Len(tab[i]) : ParseSeg(tab[i][j]).k = LIT)
     => MatchTree(Rs, tree, PathText(tab[i])) = [r |-> i, ps |-> <<>>]
Monotone == [][\A q \in Paths : MatchTree(Rs, tree, PathText(q)).r # 0
                              => MatchTree(Rs, tree', PathText(q)).r # 0]_Vars
(* every table as a scenario for the real code, with every path as a request    *)
RECURSIVE SeqOf(_)
SeqOf(X) == IF X = {} THEN <<>> ELSE LET x == CHOOSE x \in X : TRUE IN <<x>> \o SeqOf(X \ {x})
Reqs == SeqOf({[m |-> "GET", path |-> PathText(q), proto |-> "1.1", uri |-> ""] : q \in Paths}
              \cup {[m |-> "GET", path |-> PathText(q) \o "/", proto |-> "1.1", uri |-> ""] : q \in Paths})
Scenario == [id |-> "mc", before |-> 0, use |-> 0, nf |-> 2, st |-> FALSE, excl |-> <<>>, two |-> "",
             res |-> Rs, reqs |-> Reqs,
             routes |-> [i \in 1..Len(tab) |-> [m |-> "GET", parts |-> <<PathText(tab[i])>>, uri |-> PathText(tab[i])]]]
Emit == Len(tab) = MaxRoutes => PrintT("SCEN " \o ToJson(Scenario))
================================================================================
