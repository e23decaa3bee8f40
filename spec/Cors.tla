----------------------------------- MODULE Cors ---------------------------------
(* The cross-origin middleware: a configuration c = [origins, methods, headers,    *)
(* creds, expose, age] and a request q = [m, origin, acrh, ...].                  *)
EXTENDS Str, TLC
Origins(c) == IF c.origins = <<>> THEN <<"*">> ELSE c.origins
MethodsOf(c) == IF c.methods = <<>> THEN <<"GET", "POST", "PUT", "PATCH", "DELETE", "HEAD">> ELSE c.methods
Granted(c, q) ==
  LET o == Origins(c)
      I == {j \in 1..Len(o) : o[j] = "*" \/ o[j] = q.origin}
  IN IF I = {} THEN "" ELSE o[MinOf(I)]
Preflight(q) == q.m = "OPTIONS"
PreflightHeaders(c, q) == IF c.headers # <<>> THEN Join(c.headers, ",") ELSE q.acrh
VaryNeeds(q) == {"Origin"} \cup IF Preflight(q) THEN {"Access-Control-Request-Method", "Access-Control-Request-Headers"} ELSE {}
================================================================================
