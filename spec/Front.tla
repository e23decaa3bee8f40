--------------------------------- MODULE Front ---------------------------------
(* The front of an engine: gating by protocol and method, one route tree per    *)
(* method, registration for any method.                                         *)
EXTENDS Routing
Methods == {"GET", "POST", "DELETE", "PUT", "PATCH", "HEAD", "OPTIONS"}

(* 0: the request is routed; otherwise the status it is refused with            *)
Gate(q) == IF q.proto \in {"0.9", "1.0"} \/ q.uri = "*" \/ q.m = "CONNECT" THEN 406
           ELSE IF q.m \notin Methods THEN 405 ELSE 0

MethodsOf(m, excl) == IF m = "ANY" THEN {x \in Methods : ~SeqHas(excl, x)} ELSE {m}

NoTrees == [m \in Methods |-> EmptyTree]
AddRoute(trees, rt, excl, id) ==
  LET ms == MethodsOf(rt.m, excl)
      segs == PatternSegs(rt.uri)
  IN [m \in Methods |-> IF m \in ms THEN TreeAdd(trees[m], segs, id) ELSE trees[m]]
================================================================================
