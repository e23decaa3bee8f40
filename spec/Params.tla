---------------------------------- MODULE Params --------------------------------
(* The typed accessors of path parameters.  ps: captured <<name, text>> pairs.      *)
EXTENDS Num
Types == [Bool |-> "bool", Int |-> "int", Int64 |-> "int64", Uint |-> "uint", Uint64 |-> "uint64", Float64 |-> "float64"]
Captured(ps, n) == n # "_" /\ \E j \in 1..Len(ps) : ps[j][1] = n
Text(ps, n)     == ps[CHOOSE j \in 1..Len(ps) : ps[j][1] = n][2]
Must(a)         == HasPrefix(a, "Must")
TypeOf(a)       == Types[IF Must(a) THEN From(a, 5) ELSE a]
(* may the call a on name n give o = [panic, v, err]? *)
Gives(ps, a, n, o) ==
  IF ~Captured(ps, n) THEN o.panic
  ELSE /\ ~o.panic
       /\ IF a \in {"Param", "String"} THEN o.v = Text(ps, n)
          ELSE LET x == Parse(TypeOf(a), Text(ps, n)) IN
               IF Must(a) THEN o.v = x.v
               ELSE IF x.st = "ok" THEN o.v = x.v /\ ~o.err ELSE o.err
================================================================================
