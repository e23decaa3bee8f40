---------------------------------- MODULE MCCors --------------------------------
(* Every configuration over a few origins against every origin asking.             *)
EXTENDS Cors, Json, FiniteSets
CONSTANTS MaxList
Entries == {"*", "http://a.com", "http://b.com", "http://a.com:80"}
Asking  == {"", "http://a.com", "http://b.com", "http://c.com", "http://a.com.evil.com", "HTTP://A.COM", "http://a.co", "null", "*"}
VARIABLES cfg, q
vars == <<cfg, q>>
Lists == UNION {[1..n -> Entries] : n \in 0..MaxList}
Base == [origins |-> <<>>, methods |-> <<>>, headers |-> <<>>, creds |-> FALSE, expose |-> <<>>, age |-> 0]
Init == /\ \E l \in Lists, cr \in BOOLEAN, h \in {<<>>, <<"X-A", "X-B">>} :
             cfg = [Base EXCEPT !.origins = l, !.creds = cr, !.headers = h]
        /\ \E m \in {"GET", "OPTIONS"}, o \in Asking, a \in {"", "X-Q"} :
             q = [m |-> m, origin |-> o, acrh |-> a, vary |-> "", do |-> IF Len(cfg.origins) = 1 THEN "" ELSE "string"]
Next == UNCHANGED vars
Spec == Init /\ [][Next]_vars
Has(o) == \E j \in 1..Len(Origins(cfg)) : Origins(cfg)[j] = o
(* M01 *)
GrantsOnlyConfigured == LET g == Granted(cfg, q) IN g # "" => Has(g) /\ (g = "*" \/ g = q.origin)
ConfiguredIsGranted  == (Has(q.origin) \/ Has("*")) /\ q.origin # "" => Granted(cfg, q) \in {"*", q.origin}
NoneNoGrant          == (~Has("*") /\ ~Has(q.origin)) => Granted(cfg, q) = ""
Emit == PrintT("SCEN " \o ToJson([id |-> "mc", cfg |-> cfg, qs |-> <<q>>, nf |-> FALSE]))
================================================================================
