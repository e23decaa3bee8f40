-------------------------------- MODULE MCEnviron -------------------------------
(* Every short sequence of operations of two requests in progress at once.         *)
EXTENDS Environ, Json
CONSTANTS MaxOps, Names, Reqs
VARIABLES envs, hist, first
vars == <<envs, hist, first>>
Vals == {<<"int", "1">>, <<"string", "1">>, <<"nil", "">>}
Op(a, r, n, t, v) == [a |-> a, r |-> r, name |-> n, t |-> t, v |-> v]
Ops == {Op(a, r, n, v[1], v[2]) : a \in {"set"}, r \in Reqs, n \in Names, v \in Vals}
       \cup {Op(a, r, n, "", "") : a \in {"get", "maybe", "eget"}, r \in Reqs, n \in Names}
       \cup {Op("typed", r, n, "int", "") : r \in Reqs, n \in Names}
Init == /\ envs = [r \in Reqs |-> Empty] /\ first = [r \in Reqs |-> Empty]
        /\ hist = <<>>
Next == /\ Len(hist) < MaxOps
        /\ \E op \in Ops :
             /\ envs' = After(envs, op) /\ hist' = Append(hist, op)
             /\ first' = IF op.a = "set" /\ op.name \notin DOMAIN first[op.r]
                         THEN [first EXCEPT ![op.r] = Put(@, op.name, <<op.t, op.v>>)] ELSE first
Spec == Init /\ [][Next]_vars
(* E01 *)
FirstValueStays == [][\A r \in Reqs : \A n \in DOMAIN envs[r] : n \in DOMAIN envs'[r] /\ envs'[r][n] = envs[r][n]]_vars
HoldsFirst      == envs = first
ReadsWhatWasSet == \A r \in Reqs, n \in Names :
   LET g == Apply(envs, Op("get", r, n, "", "")) IN (g.panic <=> n \notin DOMAIN first[r]) /\ (~g.panic => <<g.t, g.v>> = first[r][n])
TypedOrPanic    == \A r \in Reqs, n \in Names : LET g == Apply(envs, Op("typed", r, n, "int", "")) IN
   ~g.panic <=> (n \in DOMAIN first[r] /\ first[r][n][1] = "int")
Num(r) == CHOOSE x \in 1..9 : ToString(x) = r
Emit == Len(hist) = MaxOps => PrintT("SCEN " \o ToJson([id |-> "mc", n |-> 2,
          ops |-> [j \in 1..Cardinality(Reqs) |-> [a |-> "start", r |-> j, name |-> "", t |-> "", v |-> ""]]
                  \o [j \in 1..Len(hist) |-> [hist[j] EXCEPT !.r = Num(@)]]]))
================================================================================
