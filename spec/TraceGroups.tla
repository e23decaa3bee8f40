------------------------------- MODULE TraceGroups ------------------------------
(* Recorded programs over routers and engines: register, build, serve, list.     *)
EXTENDS Groups, Json, IOUtils
Prop  == IOEnv.PROP
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES k, i, ns, engines, refused
vars == <<k, i, ns, engines, refused>>
View == <<k, i>>

S    == Trace[k]
Init == k \in 1..Len(Trace) /\ i = 0 /\ ns = <<>> /\ engines = <<>> /\ refused = FALSE

PsMap(ps)  == [n \in {ps[j][1] : j \in 1..Len(ps)} |-> (CHOOSE p \in {ps[j] : j \in 1..Len(ps)} : p[1] = n)[2]]
ToSet(q)   == {q[j] : j \in 1..Len(q)}
SameBag(a, b) == Len(a) = Len(b) /\ \A x \in ToSet(a) \cup ToSet(b) :
                   Cardinality({j \in 1..Len(a) : a[j] = x}) = Cardinality({j \in 1..Len(b) : b[j] = x})
Sorted(q) == \A j \in 1..(Len(q) - 1) : q[j][3] <= q[j + 1][3]

AcceptServe(op, o) ==
  LET e == engines[op.e]
      a == Answer(S.res, e, op.q)
  IN CASE Prop = "C01" -> \* judged for the route that answered
            \/ o.ran = <<>>
            \/ /\ o.name # "?"   \* what HandlerName() says, to each handler
               /\ \/ o.ran = Visible(e.nf) /\ o.full = ""
                  \/ \E j \in 1..Len(e.table) : e.table[j].m = op.q.m /\ o.ran = Visible(e.table[j].chain) /\ o.full = e.table[j].uri
       [] Prop \in {"C03", "R06"} ->
            /\ o.panic = "" /\ o.ran = a.ran /\ o.code = a.code
            /\ (Len(o.ran) > 0 => o.full = a.full)
            /\ PsMap(o.ps) = ParamMap(a.ps)
       [] OTHER -> TRUE

AcceptUpload(op, o) == LET e == engines[op.e] IN
  Prop = "C03" => /\ o.panic = ""
                  /\ o.disk = (op.size > e.mem)

AcceptList(op, o) ==
  LET e == engines[op.e]
      want == CASE op.what = "all"    -> AllRoutes(e)
                [] op.what = "method" -> OfMethod(e, op.m)
                [] op.what = "raw"    -> RawRows(ns, e.root, 0, S.excl)
                [] op.what = "tree"   -> LET l == TreeLeaves(e, e.trees[op.m], <<>>)
                                         IN [j \in 1..Len(l) |-> <<ToString(l[j].n), "/" \o Join(l[j].path, "/")>>]
  IN Prop = "P01" =>
     /\ o.panic = "" /\ o.bad = <<>>
     /\ CASE op.what = "all"    -> o.rows = want
          [] op.what = "method" -> SameBag(o.rows, want) /\ o.sorted
          [] op.what = "tree"   -> SameBag(o.rows, want)
          [] op.what = "raw"    -> o.rows = want
     /\ o.none = (want = <<>> /\ op.what # "raw")

(* after a refusal nothing more is required of the program *)
Exec(op, o) ==
  LET root == op.g IN
  CASE op.op = "root"   -> ns' = AddRoot(ns) /\ UNCHANGED <<engines, refused>>
    [] op.op = "default" -> ns' = (LET n == AddRoot(ns) IN Use(n, Len(n), <<"$log", "$rec">>)) /\ UNCHANGED <<engines, refused>>
    [] op.op = "before" -> ns' = Before(ns, op.g, op.hs) /\ UNCHANGED <<engines, refused>>
    [] op.op \in {"use", "arg"} -> (* arg: middleware given to Group() after a function *) ns' = Use(ns, op.g, op.hs) /\ UNCHANGED <<engines, refused>>
    [] op.op = "classic" -> ns' = Use(ns, op.g, <<"$log", "$rec">>) /\ UNCHANGED <<engines, refused>>
    [] op.op = "group"  -> ns' = AddGroup(ns, op.g, op.p, op.hs) /\ UNCHANGED <<engines, refused>>
    [] op.op = "route"  -> ns' = AddRouteTo(ns, op.g, op.m, op.p, op.hs) /\ UNCHANGED <<engines, refused>>
    [] op.op \in {"static", "file"} ->
         LET p == IF op.op = "static" THEN op.p \o "/*" ELSE op.p
             n1 == AddRouteTo(ns, op.g, "GET", p, <<"$st">>)
         IN ns' = AddRouteTo(n1, op.g, "HEAD", p, <<"$st">>) /\ UNCHANGED <<engines, refused>>
    [] op.op = "build"  ->
         IF BuildRefused(ns, root, S.excl, S.res, op.hs)
         THEN /\ Prop = "R06" => o.panic # ""
              /\ refused' = TRUE /\ UNCHANGED <<ns, engines>>
         ELSE /\ o.panic = ""
              /\ engines' = Append(engines, BuildEngine(ns, root, S.excl, op.st, op.hs, op.mem))
              /\ UNCHANGED <<ns, refused>>
    [] op.op = "serve"  -> AcceptServe(op, o) /\ UNCHANGED <<ns, engines, refused>>
    [] op.op = "upload" -> AcceptUpload(op, o) /\ UNCHANGED <<ns, engines, refused>>
    [] op.op = "list"   -> AcceptList(op, o) /\ UNCHANGED <<ns, engines, refused>>

(* a refusal may come with the operation itself or with the next build *)
LaterPanic == \E j \in (i + 1)..Len(S.obs) : S.obs[j].panic # "" /\ S.ops[j].op # "serve"
Step == /\ i < Len(S.obs) /\ ~refused
        /\ LET op == S.ops[i + 1] o == S.obs[i + 1] IN
           IF OpRefused(ns, op)
           THEN /\ Prop = "R06" => LaterPanic
                /\ refused' = TRUE /\ UNCHANGED <<ns, engines>>
           ELSE /\ op.op # "build" => o.panic = ""
                /\ Exec(op, o)
        /\ i' = i + 1 /\ UNCHANGED k
Done == /\ i = Len(S.ops) \/ refused
        /\ PrintT("ACCEPTED " \o ToString(k))
        /\ UNCHANGED <<k, ns, engines, refused>> /\ i' = 1000000
Next == (Step \/ (i < 1000000 /\ Done))
Spec == Init /\ [][Next]_vars
================================================================================
