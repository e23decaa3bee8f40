--------------------------------- MODULE Groups ---------------------------------
(* Routers as trees of groups, and the engines built from them.                  *)
(*                                                                               *)
(* A router node is [kind, parent, pat, gb, mids, m, hs, kids]; `ns' is the       *)
(* sequence of all nodes of all routers, a node is named by its index.  Handlers  *)
(* are names (strings): "nil..." and "bad..." stand for a nil handler and for one *)
(* of an unsupported type, "$..." for middleware that leaves no mark.             *)
(* An engine is a value: everything it needs is computed when it is built.        *)
EXTENDS Front

NewNode(kind, parent, pat, m, mids, hs) ==
  [kind |-> kind, parent |-> parent, pat |-> pat, gb |-> <<>>, mids |-> mids, m |-> m, hs |-> hs, kids |-> <<>>]

AddNode(ns, n) ==
  LET id == Len(ns) + 1
      grown == Append(ns, n)
  IN IF n.parent = 0 THEN grown ELSE [grown EXCEPT ![n.parent].kids = Append(@, id)]

AddRoot(ns)                == AddNode(ns, NewNode("root", 0, "", "", <<>>, <<>>))
Before(ns, g, hs)          == [ns EXCEPT ![g].gb = @ \o hs]
Use(ns, g, hs)             == [ns EXCEPT ![g].mids = @ \o hs]
AddGroup(ns, g, p, mids)   == AddNode(ns, NewNode("group", g, p, "", mids, <<>>))
AddRouteTo(ns, g, m, p, hs) == AddNode(ns, NewNode("route", g, p, m, <<>>, hs))

(* ------------------------------- what is built ------------------------------- *)
RECURSIVE Leaves(_, _)
Leaves(ns, n) == IF ns[n].kids = <<>> THEN <<n>>
                 ELSE Flat([j \in 1..Len(ns[n].kids) |-> Leaves(ns, ns[n].kids[j])])

(* the code's walk from a leaf to the root, putting outer handlers in front *)
RECURSIVE Walk(_, _, _)
Walk(ns, n, acc) ==
  LET here == ns[n].gb \o ns[n].mids \o (acc \o ns[n].hs)
  IN IF ns[n].parent = 0 THEN here ELSE Walk(ns, ns[n].parent, here)
ChainOf(ns, n) == Walk(ns, n, <<>>)

RECURSIVE UriOf(_, _)
UriOf(ns, n) == IF n = 0 THEN "" ELSE UriOf(ns, ns[n].parent) \o TrimSpace(ns[n].pat)

(* the same, declaratively: global middleware, then outermost to innermost     *)
RECURSIVE Lineage(_, _)
Lineage(ns, n) == IF n = 0 THEN <<>> ELSE Append(Lineage(ns, ns[n].parent), n)
ChainSpec(ns, n) ==
  LET l == Lineage(ns, n)
  IN Flat([j \in 1..Len(l) |-> ns[l[j]].gb]) \o Flat([j \in 1..Len(l) |-> ns[l[j]].mids]) \o ns[n].hs

MethodOrder == <<"GET", "POST", "DELETE", "PUT", "PATCH", "HEAD", "OPTIONS">>
RoutesOfLeaf(ns, n, excl) ==
  LET r == [uri |-> UriOf(ns, n), chain |-> ChainOf(ns, n), node |-> n]
      one(m) == <<[m |-> m, uri |-> r.uri, chain |-> r.chain, node |-> n]>>
  IN IF ns[n].kind # "route" THEN <<>>
     ELSE IF ns[n].m # "ANY" THEN one(ns[n].m)
     ELSE Flat([j \in 1..7 |-> IF SeqHas(excl, MethodOrder[j]) THEN <<>> ELSE one(MethodOrder[j])])
Table(ns, root, excl) ==
  LET l == Leaves(ns, root) IN Flat([j \in 1..Len(l) |-> RoutesOfLeaf(ns, l[j], excl)])

RECURSIVE Grow(_, _, _)
Grow(table, j, trees) ==
  IF j > Len(table) THEN trees
  ELSE Grow(table, j + 1, [trees EXCEPT ![table[j].m] = TreeAdd(@, PatternSegs(table[j].uri), j)])

BuildEngine(ns, root, excl, st, nf, mem) ==
  LET t == Table(ns, root, excl)
  IN [root |-> root, table |-> t, trees |-> Grow(t, 1, NoTrees), st |-> st,
      nf |-> IF nf = <<>> THEN <<>> ELSE ns[root].gb \o nf, mem |-> IF mem > 0 THEN mem ELSE 33554432]

(* ------------------------------ what is refused ------------------------------ *)
BadHandler(h) == HasPrefix(h, "nil") \/ HasPrefix(h, "bad")
NilHandler(h) == HasPrefix(h, "nil")

SegOK(res, seg) ==
  /\ WellFormedSeg(seg)
  /\ LET p == ParseSeg(seg) IN
     p.k = RE => /\ p.re \in DOMAIN res
                 /\ res[p.re].ok
                 /\ (res[p.re].n = Len(p.names) \/ (res[p.re].n = 0 /\ Len(p.names) = 1))
UriOK(res, uri) ==
  /\ uri = "/" \/ (Len(uri) > 0 /\ Ch(uri, 1) = "/" /\ Ch(uri, Len(uri)) # "/")
  /\ LET segs == PatternSegs(uri) IN \A j \in 1..Len(segs) : SegOK(res, segs[j])

BuildRefused(ns, root, excl, res, nf) ==
  LET l == Leaves(ns, root)
      t == Table(ns, root, excl)
  IN \/ \E j \in 1..Len(nf) : BadHandler(nf[j])
     \/ \E j \in 1..Len(l) : LET c == ChainOf(ns, l[j]) IN c = <<>> \/ \E x \in 1..Len(c) : BadHandler(c[x])
     \/ \E j \in 1..Len(t) : ~UriOK(res, t[j].uri)
     \/ \E i, j \in 1..Len(t) : i < j /\ t[i].m = t[j].m /\ t[i].uri = t[j].uri

RootOnly == {"before", "build", "static", "file", "classic"}
OpRefused(ns, op) ==
  \/ op.op \in {"nofs", "nonf"}      \* static files from nowhere, the option with no not-found handlers
  \/ op.op \in RootOnly /\ ns[op.g].kind # "root"
  \/ op.op = "route" /\ \E j \in 1..Len(op.hs) : NilHandler(op.hs[j])
  \/ op.op = "group" /\ \E j \in 1..Len(op.hs) : BadHandler(op.hs[j])

(* ------------------------------- what is served ------------------------------ *)
Visible(chain) == SelectSeq(chain, LAMBDA h : ~HasPrefix(h, "$"))
Answer(res, e, q) ==
  LET g == Gate(q) IN
  IF g # 0 THEN [code |-> g, ran |-> <<>>, full |-> "", ps |-> <<>>, r |-> 0]
  ELSE LET m == MatchTree(res, e.trees[q.m], q.path)
       IN IF m.r = 0
          THEN [code |-> IF e.nf = <<>> THEN 404 ELSE 200, ran |-> Visible(e.nf), full |-> "", ps |-> <<>>, r |-> 0]
          ELSE [code |-> 200, ran |-> Visible(e.table[m.r].chain), full |-> e.table[m.r].uri, ps |-> m.ps, r |-> m.r]

(* --------------------------------- listings ---------------------------------- *)
(* all routes: [m, n, uri] in registration order                                 *)
AllRoutes(e) == [j \in 1..Len(e.table) |-> <<e.table[j].m, ToString(Len(e.table[j].chain)), e.table[j].uri>>]
OfMethod(e, m) == LET s == SelectSeq(e.table, LAMBDA r : r.m = m)
                  IN [j \in 1..Len(s) |-> <<ToString(Len(s[j].chain)), s[j].uri>>]
(* the declared tree: a row per group and route, [depth, pattern, method, n], depth first; *)
(* n leaves out the global middleware                                            *)
RECURSIVE OwnLen(_, _)
OwnLen(ns, n) == IF n = 0 THEN 0 ELSE Len(ns[n].mids) + Len(ns[n].hs) + OwnLen(ns, ns[n].parent)
RowsOf(ns, n, d, excl) ==
  LET row(m) == <<ToString(d), ns[n].pat, m, IF m = "" THEN "" ELSE ToString(OwnLen(ns, n))>>
  IN IF ns[n].kind # "route" THEN <<row("")>>
     ELSE IF ns[n].m # "ANY" THEN <<row(ns[n].m)>>
     ELSE LET s == SelectSeq(MethodOrder, LAMBDA m : ~SeqHas(excl, m)) IN [j \in 1..Len(s) |-> row(s[j])]
RECURSIVE RawRows(_, _, _, _)
RawRows(ns, n, d, excl) ==
  Flat([j \in 1..Len(ns[n].kids) |-> RowsOf(ns, ns[n].kids[j], d, excl) \o RawRows(ns, ns[n].kids[j], d + 1, excl)])
RECURSIVE TreeLeaves(_, _, _)
TreeLeaves(e, node, prefix) ==
  Flat([j \in 1..Len(node.subs) |-> TreeLeaves(e, node.subs[j], Append(prefix, node.subs[j].pat))])
  \o [j \in 1..Len(node.ends) |-> [path |-> Append(prefix, node.ends[j].pat), n |-> Len(e.table[node.ends[j].route].chain)]]
================================================================================
