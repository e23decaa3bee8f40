--------------------------------- MODULE Regex ---------------------------------
(* Leftmost-first ("Perl") matching of regular expressions given as syntax     *)
(* trees, the semantics of the expressions in route patterns.  A node is       *)
(* [k |-> kind, ...]:  lit(c) cls(cs) ncls(cs) any cat(xs) alt(xs) star(x)     *)
(* plus(x) opt(x) grp(n, x) ncg(x) bol eol.                                    *)
EXTENDS Naturals, Sequences, Str, TLC

(* F applied to the value of v, which TLC then computes once only. *)
With(v, F(_)) == CHOOSE r \in {F(x) : x \in {v}} : TRUE

(* All ways to match node a of string s from position i (1-based, the next    *)
(* character to read), best first.  A way is [e |-> next position, c |-> caps] *)
(* where caps[n] = <<first, past-last>>.                                       *)
RECURSIVE Ways(_, _, _, _), CatWays(_, _, _, _), AltWays(_, _, _, _), Each(_, _, _), Star(_, _, _, _), Stars(_, _, _)

Ways(a, s, i, caps) ==
  CASE a.k = "lit"  -> IF i <= Len(s) /\ Ch(s, i) = a.c THEN <<[e |-> i + 1, c |-> caps]>> ELSE <<>>
    [] a.k = "cls"  -> IF i <= Len(s) /\ SeqHas(a.cs, Ch(s, i)) THEN <<[e |-> i + 1, c |-> caps]>> ELSE <<>>
    [] a.k = "ncls" -> IF i <= Len(s) /\ ~SeqHas(a.cs, Ch(s, i)) THEN <<[e |-> i + 1, c |-> caps]>> ELSE <<>>
    [] a.k = "any"  -> IF i <= Len(s) /\ Ch(s, i) # "\n" THEN <<[e |-> i + 1, c |-> caps]>> ELSE <<>>
    [] a.k = "bol"  -> IF i = 1 THEN <<[e |-> i, c |-> caps]>> ELSE <<>>
    [] a.k = "eol"  -> IF i = Len(s) + 1 THEN <<[e |-> i, c |-> caps]>> ELSE <<>>
    [] a.k = "cat"  -> CatWays(a.xs, s, i, caps)
    [] a.k = "alt"  -> AltWays(a.xs, s, i, caps)
    [] a.k = "opt"  -> Ways(a.x, s, i, caps) \o <<[e |-> i, c |-> caps]>>
    [] a.k = "star" -> Star(a.x, s, i, caps)
    [] a.k = "plus" -> With(Ways(a.x, s, i, caps), LAMBDA ws : Stars(a.x, s, ws))
    [] a.k = "ncg"  -> Ways(a.x, s, i, caps)
    [] a.k = "grp"  -> With(Ways(a.x, s, i, caps), LAMBDA w :
                         TLCEval([j \in 1..Len(w) |-> [e |-> w[j].e, c |-> [w[j].c EXCEPT ![a.n] = <<i, w[j].e>>]]]))

CatWays(xs, s, i, caps) ==
  IF Len(xs) = 0 THEN <<[e |-> i, c |-> caps]>> ELSE With(Ways(xs[1], s, i, caps), LAMBDA ws : Each(ws, Tail(xs), s))

Each(ws, xs, s) ==
  IF Len(ws) = 0 THEN <<>>
  ELSE With(ws[1], LAMBDA w : CatWays(xs, s, w.e, w.c)) \o With(Tail(ws), LAMBDA t : Each(t, xs, s))

AltWays(xs, s, i, caps) ==
  IF Len(xs) = 0 THEN <<>> ELSE Ways(xs[1], s, i, caps) \o AltWays(Tail(xs), s, i, caps)

(* greedy; an iteration must consume (the generator never nests empty bodies) *)
Star(x, s, i, caps) ==
  With(SelectSeq(Ways(x, s, i, caps), LAMBDA w : w.e > i), LAMBDA ws : Stars(x, s, ws)) \o <<[e |-> i, c |-> caps]>>
Stars(x, s, ws) ==
  IF Len(ws) = 0 THEN <<>>
  ELSE With(ws[1], LAMBDA w : Star(x, s, w.e, w.c)) \o With(Tail(ws), LAMBDA t : Stars(x, s, t))

(* First match anywhere in s.  ng = number of groups.  Result: <<>> or         *)
(* <<whole, group1, ..., groupN>> with "" for groups that took no part.        *)
FindSubmatch(a, ng, s) ==
  LET caps0 == TLCEval([n \in 1..ng |-> <<0, 0>>])
      starts == {i \in 1..(Len(s) + 1) : Len(Ways(a, s, i, caps0)) > 0}
  IN IF starts = {} THEN <<>>
     ELSE LET b == MinOf(starts)
              w == TLCEval(Ways(a, s, b, caps0))[1]
          IN <<SubSeq(s, b, w.e - 1)>> \o [n \in 1..ng |->
                IF w.c[n][1] = 0 THEN "" ELSE SubSeq(s, w.c[n][1], w.c[n][2] - 1)]
================================================================================
