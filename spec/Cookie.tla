---------------------------------- MODULE Cookie --------------------------------
(* Cookies of a request (cs: <<name, value>> in order) and those set on the response *)
EXTENDS Num
Named(cs, n) == SelectSeq(cs, LAMBDA p : p[1] = n)
Read(cs, n)  == LET f == Named(cs, n) IN IF f = <<>> THEN "" ELSE f[1][2]
Esc == [x \in {} |-> ""] @@ ("&" :> "&amp;") @@ ("<" :> "&lt;") @@ (">" :> "&gt;") @@ ("'" :> "&#39;") @@ ("\"" :> "&#34;")
RECURSIVE Escape(_)
Escape(s) == IF s = "" THEN "" ELSE (IF Ch(s, 1) \in DOMAIN Esc THEN Esc[Ch(s, 1)] ELSE Ch(s, 1)) \o Escape(From(s, 2))
Types == [CookieBool |-> "bool", CookieInt |-> "int", CookieInt64 |-> "int64", CookieUint |-> "uint", CookieUint64 |-> "uint64", CookieFloat64 |-> "float64"]
Call(cs, a, n) ==
  CASE a = "Cookie" -> Read(cs, n)
    [] a = "CookieEscape" -> Escape(Read(cs, n))
    [] OTHER -> IF Named(cs, n) = <<>> THEN (IF a = "CookieBool" THEN "false" ELSE "0") ELSE Lenient(Types[a], Read(cs, n))

(* what setting a cookie with the given optional arguments puts on the wire.         *)
(* args: <<[t, v]>>, t the Go type; result [name, value, age, path, domain, secure, http, site]; age "" when not sent, "-1": delete *)
Arg(args, n) == IF n <= Len(args) THEN args[n] ELSE [t |-> "nil", v |-> ""]
Ints  == {"int", "int32", "int64"}
Age(a) == IF a.t \in Ints /\ a.v # "0" THEN (IF HasPrefix(a.v, "-") THEN "-1" ELSE a.v) ELSE ""
Text(a, dflt) == IF a.t = "string" /\ a.v # "" THEN a.v ELSE dflt
Made(name, value, args) ==
  [name |-> name, value |-> value, age |-> Age(Arg(args, 1)), path |-> Text(Arg(args, 2), "/"), domain |-> Text(Arg(args, 3), ""),
   secure |-> (IF Arg(args, 4).t = "bool" THEN Arg(args, 4).v = "true" ELSE Arg(args, 4).t # "nil"),
   http |-> (Arg(args, 5).t = "bool" /\ Arg(args, 5).v = "true"),
   site |-> IF Arg(args, 6).t = "site" THEN Arg(args, 6).v ELSE ""]
================================================================================
