---------------------------------- MODULE MCNum ---------------------------------
(* Every short text over an alphabet, read as every type; checked against integer   *)
(* arithmetic where TLC's integers reach.                                           *)
EXTENDS Params, Json, FiniteSets
CONSTANTS MaxLen
VARIABLES s
Alphabet == {"0", "1", "2", "9", "-", "+", "x", "."}
Init == s = ""
Next == Len(s) < MaxLen /\ \E c \in Alphabet : s' = s \o c
Spec == Init /\ [][Next]_s
RECURSIVE IntOf(_)
IntOf(d) == IF d = "" THEN 0 ELSE 10 * IntOf(SubSeq(d, 1, Len(d) - 1)) + Val[Ch(d, Len(d))]
Small == AllDigits(s) /\ Len(s) <= 8
DigitsAgree == Small =>
   /\ ParseInt(s, 32) = R("ok", ToString(IntOf(s)))
   /\ ParseInt(s, 8) = (IF IntOf(s) <= 127 THEN R("ok", ToString(IntOf(s))) ELSE R("range", "127"))
   /\ ParseInt("-" \o s, 8) = (IF IntOf(s) <= 128 THEN R("ok", ToString(0 - IntOf(s))) ELSE R("range", "-128"))
   /\ ParseUint(s, 8) = (IF IntOf(s) <= 255 THEN R("ok", ToString(IntOf(s))) ELSE R("range", "255"))
   /\ ParseFloat(s, 64) = R("ok", ToString(IntOf(s)))
OnlyNumbersParse == ParseInt(s, 64).st # "bad" => \E d \in {s, From(s, 2)} : AllDigits(d)
Canonical == \A b \in {8, 16, 32, 64} : LET p == ParseInt(s, b) IN p.st = "ok" => ParseInt(p.v, b) = p
Widths == \A b \in {8, 16, 32} : ParseInt(s, b).st = "ok" => ParseInt(s, 64) = ParseInt(s, b)
Calls == <<"Int", "MustInt", "Int64", "Uint", "MustUint64", "Float64", "MustFloat64", "Bool", "MustBool", "Uint64", "MustInt64", "Param">>
Emit == (s # "" /\ Len(s) <= MaxLen) =>
   PrintT("SCEN " \o ToJson([id |-> "mc", ps |-> <<<<"a", s>>, <<"b", "7">>>>,
          ops |-> [j \in 1..Len(Calls) |-> [a |-> Calls[j], name |-> "a", hit |-> TRUE]] \o <<[a |-> "Int", name |-> "c", hit |-> TRUE], [a |-> "Int", name |-> "a", hit |-> FALSE]>>]))
================================================================================
