-------------------------------- MODULE MCGroups --------------------------------
(* Every short program of registrations and builds on one router.               *)
EXTENDS Groups, Json
CONSTANTS MaxOps, MaxGroups, Excl, Emits
VARIABLES ns, engines, refused, hist
Vars == <<ns, engines, refused, hist>>

Rs == [x \in {} |-> 0]
NoExcl == <<>>
DefaultExcl == <<"HEAD", "OPTIONS">>
Blank == [op |-> "", g |-> 0, p |-> "", m |-> "", hs |-> <<>>, fn |-> 0, up |-> FALSE, st |-> FALSE, mem |-> 0, e |-> 0,
          q |-> [m |-> "", path |-> "", proto |-> "1.1", uri |-> ""], size |-> 0, what |-> ""]
RootOp == [Blank EXCEPT !.op = "root"]
Init == ns = AddRoot(<<>>) /\ engines = <<>> /\ refused = FALSE /\ hist = <<RootOp>>

Fresh == "h" \o ToString(Len(hist))
Groups == {n \in 1..Len(ns) : ns[n].kind # "route"}
Go == Len(hist) <= MaxOps /\ ~refused
Log(op) == hist' = Append(hist, op)

DoUse(g)    == Go /\ ns' = Use(ns, g, <<Fresh>>) /\ Log([Blank EXCEPT !.op = "use", !.g = g, !.hs = <<Fresh>>]) /\ UNCHANGED <<engines, refused>>
DoBefore(g) ==
  LET op == [Blank EXCEPT !.op = "before", !.g = g, !.hs = <<Fresh>>]
  IN Go /\ Log(op) /\ UNCHANGED engines
     /\ IF OpRefused(ns, op) THEN refused' = TRUE /\ UNCHANGED ns ELSE ns' = Before(ns, g, <<Fresh>>) /\ UNCHANGED refused
DoGroup(g, hs)  == Go /\ Cardinality(Groups) <= MaxGroups /\ ns' = AddGroup(ns, g, "/g", hs)
               /\ Log([Blank EXCEPT !.op = "group", !.g = g, !.p = "/g", !.hs = hs]) /\ UNCHANGED <<engines, refused>>
DoRoute(g, m, p) == Go /\ ns' = AddRouteTo(ns, g, m, p, <<Fresh>>)
               /\ Log([Blank EXCEPT !.op = "route", !.g = g, !.m = m, !.p = p, !.hs = <<Fresh>>]) /\ UNCHANGED <<engines, refused>>
DoBuild(g, st, nf) ==
  LET op == [Blank EXCEPT !.op = "build", !.g = g, !.st = st, !.hs = nf]
  IN /\ Go /\ Log(op) /\ UNCHANGED ns
     /\ IF OpRefused(ns, op) \/ BuildRefused(ns, g, Excl, Rs, nf)
        THEN refused' = TRUE /\ UNCHANGED engines
        ELSE engines' = Append(engines, BuildEngine(ns, g, Excl, st, nf, 0)) /\ UNCHANGED refused
Next == \E g \in Groups :
          \/ DoUse(g) \/ DoBefore(g)
          \/ \E hs \in {<<>>, <<Fresh>>} : DoGroup(g, hs)
          \/ \E m \in {"GET", "ANY"}, p \in {"/a", "/:x"} : DoRoute(g, m, p)
          \/ \E st \in BOOLEAN, nf \in {<<>>, <<Fresh>>} : (st = (nf = <<>>)) /\ DoBuild(g, st, nf)
Spec == Init /\ [][Next]_Vars
View == <<ns, engines, refused, hist>>

(* C01 *)
ChainsAgree == \A n \in 1..Len(ns) : ns[n].kind = "route" => ChainOf(ns, n) = ChainSpec(ns, n)
GroupMiddlewareReachesItsRoutesOnly == \A n \in 1..Len(ns) : ns[n].kind = "route" =>
   \A g \in Groups : \A x \in 1..Len(ns[g].mids) : SeqHas(ChainOf(ns, n), ns[g].mids[x]) <=> SeqHas(Lineage(ns, n), g)
(* C03 *)
EnginesAreSnapshots == [][\A e \in 1..Len(engines) : engines'[e] = engines[e]]_Vars
(* R06, P01 *)
BuiltTablesAreSound == \A e \in 1..Len(engines) :
   LET t == engines[e].table IN
   /\ \A j \in 1..Len(t) : t[j].chain # <<>> /\ UriOK(Rs, t[j].uri)
   /\ \A i, j \in 1..Len(t) : i # j => t[i].m # t[j].m \/ t[i].uri # t[j].uri
   /\ LET raw == SelectSeq(RawRows(ns, engines[e].root, 0, Excl), LAMBDA r : r[3] # "")
      IN Len(raw) >= Len(t) /\ \A j \in 1..Len(t) : \E x \in 1..Len(raw) : raw[x][3] = t[j].m
   /\ \A m \in Methods : LET l == TreeLeaves(engines[e], engines[e].trees[m], <<>>) IN
        {"/" \o Join(l[j].path, "/") : j \in 1..Len(l)} = {"/" \o Join(PatternSegs(t[j].uri), "/") : j \in {x \in 1..Len(t) : t[x].m = m}}

Q(m, t) == [m |-> m, path |-> t, proto |-> "1.1", uri |-> ""]
Serves(e) == LET qs == <<Q("GET", "/a"), Q("GET", "/g/a"), Q("GET", "/g/g/a"), Q("GET", "/zz"), Q("POST", "/a"), Q("HEAD", "/g/a"), Q("GET", "/g/zz")>>
             IN [j \in 1..Len(qs) |-> [Blank EXCEPT !.op = "serve", !.e = e, !.q = qs[j]]]
Lists(e) == <<[Blank EXCEPT !.op = "list", !.e = e, !.what = "raw"], [Blank EXCEPT !.op = "list", !.e = e, !.what = "all"], [Blank EXCEPT !.op = "list", !.e = e, !.what = "method", !.m = "GET"],
              [Blank EXCEPT !.op = "list", !.e = e, !.what = "tree", !.m = "GET"], [Blank EXCEPT !.op = "list", !.e = e, !.what = "tree", !.m = "HEAD"]>>
Ops == hist \o Flat([e \in 1..Len(engines) |-> IF Emits = "lists" THEN Lists(e) ELSE Serves(e)])
Emit == ((Len(hist) = MaxOps + 1 /\ engines # <<>>) \/ refused)
          => PrintT("SCEN " \o ToJson([id |-> "mc", excl |-> Excl, res |-> Rs, ops |-> Ops]))
================================================================================
