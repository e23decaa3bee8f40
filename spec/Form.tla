----------------------------------- MODULE Form ---------------------------------
(* What the form accessors of a request return.  A request is [m, ct, query, body]: *)
(* method, kind of body ("none", "url", "multi", "other"), and the <<name, value>>  *)
(* pairs of query and body in order.                                                *)
EXTENDS Num, FiniteSets
HasBody(q)  == q.m \in {"POST", "PUT", "PATCH"}
(* a part of the form cannot be read *)
Unread(q)   == q.bad = "query" \/ (q.bad = "body" /\ HasBody(q) /\ q.ct \in {"url", "multi"})
Named(l, n) == LET s == SelectSeq(l, LAMBDA p : p[1] = n) IN [j \in 1..Len(s) |-> s[j][2]]
InForm(q)   == (IF HasBody(q) /\ q.ct = "url" THEN q.body ELSE <<>>) \o q.query \o (IF HasBody(q) /\ q.ct = "multi" THEN q.body ELSE <<>>)
Values(q, n) == Named(InForm(q), n)
Names(q)    == LET f == InForm(q) IN {f[j][1] : j \in 1..Len(f)}
Present(q, n) == Values(q, n) # <<>>

First(q, n)  == TrimSpace(Values(q, n)[1])
All(q, n)    == [j \in 1..Len(Values(q, n)) |-> TrimSpace(Values(q, n)[j])]
(* name[sub] -> sub *)
Sub(name, key) ==
  LET rest == From(name, Len(key) + 2)
      j == Index(rest, "]")
  IN IF key # "" /\ HasPrefix(name, key \o "[") /\ j > 1 THEN SubSeq(rest, 1, j - 1) ELSE ""
Map(q, key)  == {<<Sub(n, key), First(q, n)>> : n \in {x \in Names(q) : Sub(x, key) # ""}}

Typed(a) == LET T == [QueryBool |-> "bool", QueryInt |-> "int", QueryInt64 |-> "int64", QueryUint |-> "uint", QueryUint64 |-> "uint64", QueryFloat64 |-> "float64"]
            IN IF HasPrefix(a, "Default") THEN T[From(a, 8)] ELSE T[a]
(* result: [s, l, m]: string, list, set of pairs *)
Str1(s) == [s |-> s, l |-> <<>>, m |-> {}]
List(l) == [s |-> "", l |-> l, m |-> {}]
Pairs(m) == [s |-> "", l |-> <<>>, m |-> m]
Call(q, op) ==
  LET has == Present(q, op.name) IN
  CASE op.a = "Query"             -> Str1(IF has THEN First(q, op.name) ELSE "")
    [] op.a = "DefaultQuery"      -> Str1(IF has THEN First(q, op.name) ELSE op.def)
    [] op.a = "QueryArray"        -> List(IF has THEN All(q, op.name) ELSE <<>>)
    [] op.a = "DefaultQueryArray" -> List(IF has THEN All(q, op.name) ELSE op.dlist)
    [] op.a = "QueryMap"          -> Pairs(Map(q, op.name))
    [] op.a = "DefaultQueryMap"   -> Pairs(IF Map(q, op.name) # {} THEN Map(q, op.name) ELSE {op.dmap[j] : j \in 1..Len(op.dmap)})
    [] HasPrefix(op.a, "Default") -> Str1(Lenient(Typed(op.a), IF has THEN First(q, op.name) ELSE op.def))
    [] OTHER                      -> Str1(Lenient(Typed(op.a), IF has THEN First(q, op.name) ELSE ""))
================================================================================
