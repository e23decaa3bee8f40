-------------------------------- MODULE Routing --------------------------------
(* Route patterns, the per-method route tree, and matching.                     *)
(*                                                                              *)
(* Two definitions of "the route that answers a path":                          *)
(*   - MatchTree   operational, one operator per function of tree.go            *)
(*   - Winner      declarative: the least route in a segment-wise order         *)
(* MCRouting checks that they agree on every small route table and path.        *)
(*                                                                              *)
(* `res' maps the text of a regular expression to [a |-> syntax tree,           *)
(* n |-> number of groups].                                                     *)
EXTENDS Naturals, Sequences, FiniteSets, Str, Regex, TLC

LIT == 0   RE == 1   PAR == 2   ALL == 3   BAD == 9

(* -------------------------------- patterns --------------------------------- *)

(* "/:name" -> "/<name>" ; white space around a segment's name is dropped.     *)
VariantUri(raw) ==
  IF ~Contains(raw, "/:") /\ ~Contains(raw, "/*") THEN raw
  ELSE LET V(s) == IF HasPrefix(s, ":") THEN "<" \o TrimSpace(From(s, 2)) \o ">"
                   ELSE IF HasPrefix(s, "*") THEN TrimSpace(s) ELSE s
       IN Join(MapSeq(V, Split(raw, "/")), "/")

(* A pattern is cut into segments; one slash before each segment is dropped.   *)
RECURSIVE CutSegs(_)
CutSegs(p) ==
  LET q == TrimPrefix(p, "/")
      i == Index(q, "/")
  IN IF i = 0 THEN <<q>> ELSE <<SubSeq(q, 1, i - 1)>> \o CutSegs(From(q, i + 1))
PatternSegs(uri) == CutSegs(TrimSuffix(VariantUri(uri), "/"))

(* <a, b ~ re> : text between the outer angle brackets up to ":" or "~".       *)
ParamText(seg) ==
  LET tilde == Index(seg, "~")
      stop  == IF tilde > 0 THEN tilde ELSE Len(seg)
      colon == Index(SubSeq(seg, 1, stop - 1), ":")
  IN TrimSpace(SubSeq(seg, 2, (IF colon > 0 THEN colon ELSE stop) - 1))

ReText(seg) == LET b == Index(seg, "~") e == Index(seg, ">")
               IN IF e <= b THEN "" ELSE TrimSpace(SubSeq(seg, b + 1, e - 1))

Angled(seg) == Contains(seg, "<") \/ Contains(seg, ">")

WellFormedSeg(seg) ==
  /\ seg = TrimSpace(seg)
  /\ \/ HasPrefix(seg, "*")
     \/ ~Angled(seg)
     \/ (Index(seg, "<") = 1 /\ LastIndex(seg, ">") = Len(seg))

ParseSeg(seg) ==
  IF HasPrefix(seg, "*")
  THEN [pat |-> seg, k |-> ALL, name |-> From(seg, 2), names |-> <<>>, re |-> ""]
  ELSE IF ~Angled(seg)
  THEN [pat |-> seg, k |-> LIT, name |-> seg, names |-> <<>>, re |-> ""]
  ELSE LET t == ParamText(seg)
       IN IF HasPrefix(t, "*")
          THEN [pat |-> seg, k |-> ALL, name |-> From(t, 2), names |-> <<>>, re |-> ""]
          ELSE IF Contains(seg, "~")
          THEN [pat |-> seg, k |-> RE, name |-> t, names |-> MapSeq(TrimSpace, Split(t, ",")), re |-> ReText(seg)]
          ELSE [pat |-> seg, k |-> PAR, name |-> t, names |-> <<>>, re |-> ""]

(* Groups of the expression as matched: an expression without groups that      *)
(* feeds a single name is one group as a whole.                                *)
GroupsOf(res, p, s) ==
  LET r == res[p.re]
      m == FindSubmatch(r.a, r.n, s)
  IN IF Len(m) = 0 THEN <<>>
     ELSE IF r.n = 0 /\ Len(p.names) = 1 THEN <<m[1]>> ELSE Tail(m)
ReMatches(res, p, s) ==
  LET r == res[p.re]
  IN /\ Len(FindSubmatch(r.a, r.n, s)) > 0
     /\ Len(GroupsOf(res, p, s)) = Len(p.names)

Bind1(name, val) == IF name = "_" THEN <<>> ELSE <<<<name, val>>>>
ReBinds(res, p, s) ==
  LET g == GroupsOf(res, p, s)
  IN Flat([i \in 1..Len(g) |-> Bind1(p.names[i], g[i])])
GlobName(p, glob) == IF p.name = "" THEN "*" \o ToString(glob) ELSE p.name

(* ---------------------------------- tree ----------------------------------- *)

Node(seg) == LET p == ParseSeg(seg)
             IN [pat |-> seg, p |-> p, subs |-> <<>>, ends |-> <<>>, route |-> 0]
EmptyTree == Node("")

InsertByKind(q, n) ==   \* after every sibling of the same or a stronger kind
  LET after == {i \in 1..Len(q) : n.p.k < q[i].p.k}
      at    == IF after = {} THEN Len(q) + 1 ELSE MinOf(after)
  IN SubSeq(q, 1, at - 1) \o <<n>> \o SubSeq(q, at, Len(q))

RECURSIVE TreeAdd(_, _, _)
TreeAdd(node, segs, route) ==
  IF Len(segs) = 1
  THEN IF \E i \in 1..Len(node.ends) : node.ends[i].pat = segs[1]
       THEN node   \* the first route of a pattern keeps it
       ELSE [node EXCEPT !.ends = InsertByKind(@, [Node(segs[1]) EXCEPT !.route = route])]
  ELSE LET I == {i \in 1..Len(node.subs) : node.subs[i].pat = segs[1]}
       IN IF I # {}
          THEN LET i == MinOf(I) IN [node EXCEPT !.subs[i] = TreeAdd(@, Tail(segs), route)]
          ELSE [node EXCEPT !.subs = InsertByKind(@, TreeAdd(Node(segs[1]), Tail(segs), route))]

(* -------------------------------- matching --------------------------------- *)

NoMatch == [r |-> 0, ps |-> <<>>]
PathSegs(path) == Split(TrimSuffix(TrimPrefix(path, "/"), "/"), "/")

RECURSIVE MatchNode(_, _, _, _), MatchSub(_, _, _, _, _), MatchEnd(_, _, _, _, _)

MatchNode(res, node, segs, glob) ==
  IF Len(segs) = 1 THEN MatchEnd(res, node, segs[1], glob, 1) ELSE MatchSub(res, node, segs, glob, 1)

MatchEnd(res, node, s, glob, i) ==
  IF i > Len(node.ends) THEN NoMatch
  ELSE LET n == node.ends[i] p == n.p
       IN CASE p.k = LIT /\ n.pat = s            -> [r |-> n.route, ps |-> <<>>]
            [] p.k = RE /\ ReMatches(res, p, s)  -> [r |-> n.route, ps |-> ReBinds(res, p, s)]
            [] p.k = PAR                         -> [r |-> n.route, ps |-> Bind1(p.name, s)]
            [] p.k = ALL                         -> [r |-> n.route, ps |-> Bind1(GlobName(p, glob), s)]
            [] OTHER                             -> MatchEnd(res, node, s, glob, i + 1)

MatchSub(res, node, segs, glob, i) ==
  IF i > Len(node.subs)
  THEN LET G == {j \in 1..Len(node.ends) : node.ends[j].p.k = ALL}   \* for "/*"
       IN IF G = {} THEN NoMatch
          ELSE LET n == node.ends[MinOf(G)]
               IN [r |-> n.route, ps |-> Bind1(GlobName(n.p, glob), Join(segs, "/"))]
  ELSE LET n    == node.subs[i]
           p    == n.p
           s    == segs[1]
           next == MatchSub(res, node, segs, glob, i + 1)
           Down(g, own) == LET m == MatchNode(res, n, Tail(segs), g)
                           IN IF m.r # 0 THEN [r |-> m.r, ps |-> m.ps \o own] ELSE next
       IN CASE p.k = LIT /\ n.pat = s           -> Down(glob, <<>>)
            [] p.k = RE /\ ReMatches(res, p, s) -> Down(glob, ReBinds(res, p, s))
            [] p.k = PAR                        -> Down(glob, Bind1(p.name, s))
            [] p.k = ALL                        -> Down(glob + 1, Bind1(GlobName(p, glob),
                                                      IF p.name = "" THEN s ELSE Join(segs, "/")))
            [] OTHER                            -> next

MatchTree(res, tree, path) == MatchNode(res, tree, PathSegs(path), 0)

(* Later bindings of a repeated name replace earlier ones.                     *)
ParamMap(ps) == [n \in {ps[i][1] : i \in 1..Len(ps)} |->
                    ps[MaxOf({i \in 1..Len(ps) : ps[i][1] = n})][2]]

(* ------------------------------- declarative ------------------------------- *)
(* `tab' is the sequence of the routes' segment sequences in registration order *)

SegFits(res, seg, s) ==
  LET p == ParseSeg(seg)
  IN CASE p.k = LIT -> seg = s
       [] p.k = RE  -> ReMatches(res, p, s)
       [] OTHER     -> TRUE

Fits(res, segs, q) ==
  LET n == Len(segs) IN
  /\ n <= Len(q)
  /\ \A j \in 1..n : (j < n \/ n = Len(q)) => SegFits(res, segs[j], q[j])
  /\ n < Len(q) => ParseSeg(segs[n]).k = ALL

Min1(tab, segs, j) ==   \* first route that created the node of segment j
  MinOf({i \in 1..Len(tab) :
           IF j = Len(segs) THEN tab[i] = segs
           ELSE Len(tab[i]) > j /\ SubSeq(tab[i], 1, j) = SubSeq(segs, 1, j)})

(* rank of a fitting route: a number sequence, smaller is more specific        *)
Rank(tab, segs, q) ==
  Flat([j \in 1..Len(segs) |->
          << IF j = Len(segs) /\ j < Len(q) THEN 1 ELSE 0, ParseSeg(segs[j]).k, Min1(tab, segs, j) >>])

RECURSIVE Less(_, _)
Less(a, b) == IF Len(b) = 0 THEN FALSE ELSE IF Len(a) = 0 THEN TRUE
              ELSE a[1] < b[1] \/ (a[1] = b[1] /\ Less(Tail(a), Tail(b)))

Winner(res, tab, path) ==
  LET q == PathSegs(path)
      C == {i \in 1..Len(tab) : Fits(res, tab[i], q)}
  IN IF C = {} THEN 0
     ELSE MinOf({i \in C : \A j \in C : ~Less(Rank(tab, tab[j], q), Rank(tab, tab[i], q))})

(* What a route captures from a path it fits, from its pattern alone.          *)
CapturesOf(res, segs, path) ==
  LET q == PathSegs(path)
      n == Len(segs)
      P(j) == ParseSeg(segs[j])
      globs(j) == Cardinality({x \in 1..(j - 1) : P(x).k = ALL})
      one(j) == CASE P(j).k = LIT -> <<>>
                  [] P(j).k = RE  -> ReBinds(res, P(j), q[j])
                  [] P(j).k = PAR -> Bind1(P(j).name, q[j])
                  [] P(j).k = ALL ->
                       Bind1(GlobName(P(j), globs(j)),
                             IF j < n /\ P(j).name = "" THEN q[j] ELSE Join(SubSeq(q, j, Len(q)), "/"))
  IN ParamMap(Flat(Rev([j \in 1..n |-> one(j)])))

RepeatsName(segs) ==
  LET nm == Flat([j \in 1..Len(segs) |->
                LET p == ParseSeg(segs[j]) IN
                CASE p.k = LIT -> <<>> [] p.k = RE -> p.names [] p.k = PAR -> <<p.name>>
                  [] p.k = ALL -> IF p.name = "" THEN <<>> ELSE <<p.name>>])
  IN \E i, j \in 1..Len(nm) : i < j /\ nm[i] = nm[j] /\ nm[i] # "_"
================================================================================
