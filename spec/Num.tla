----------------------------------- MODULE Num ----------------------------------
(* Numbers as texts: what a decimal text denotes, for integers of any width (TLC's  *)
(* own integers have 32 bits), short decimals and booleans.  A result is            *)
(* [st |-> "ok" | "bad" | "range", v |-> canonical text]; for "range" v is the       *)
(* nearest bound, for "bad" it is zero.                                             *)
EXTENDS Str, TLC
Val == [x \in {} |-> 0] @@ ("0" :> 0) @@ ("1" :> 1) @@ ("2" :> 2) @@ ("3" :> 3) @@ ("4" :> 4)
       @@ ("5" :> 5) @@ ("6" :> 6) @@ ("7" :> 7) @@ ("8" :> 8) @@ ("9" :> 9)
AllDigits(s) == Len(s) > 0 /\ \A i \in 1..Len(s) : Ch(s, i) \in DOMAIN Val
RECURSIVE NoZeros(_)
NoZeros(s) == IF Len(s) > 1 /\ Ch(s, 1) = "0" THEN NoZeros(From(s, 2)) ELSE s
RECURSIVE NoTail(_)
NoTail(s) == IF Len(s) > 0 /\ Ch(s, Len(s)) = "0" THEN NoTail(SubSeq(s, 1, Len(s) - 1)) ELSE s

(* a <= b for digit texts without leading zeros *)
LeqD(a, b) ==
  IF Len(a) # Len(b) THEN Len(a) < Len(b)
  ELSE LET D == {i \in 1..Len(a) : Ch(a, i) # Ch(b, i)}
       IN D = {} \/ LET i == MinOf(D) IN Val[Ch(a, i)] < Val[Ch(b, i)]

MaxS == [b \in {8, 16, 32, 64} |-> CASE b = 8 -> "127" [] b = 16 -> "32767" [] b = 32 -> "2147483647" [] b = 64 -> "9223372036854775807"]
MinS == [b \in {8, 16, 32, 64} |-> CASE b = 8 -> "128" [] b = 16 -> "32768" [] b = 32 -> "2147483648" [] b = 64 -> "9223372036854775808"]
MaxU == [b \in {8, 16, 32, 64} |-> CASE b = 8 -> "255" [] b = 16 -> "65535" [] b = 32 -> "4294967295" [] b = 64 -> "18446744073709551615"]

R(st, v) == [st |-> st, v |-> v]
ParseInt(s, bits) ==
  LET neg  == HasPrefix(s, "-")
      body == IF neg \/ HasPrefix(s, "+") THEN From(s, 2) ELSE s
  IN IF ~AllDigits(body) THEN R("bad", "0")
     ELSE LET d == NoZeros(body) IN
          IF neg THEN IF LeqD(d, MinS[bits]) THEN R("ok", IF d = "0" THEN "0" ELSE "-" \o d) ELSE R("range", "-" \o MinS[bits])
          ELSE IF LeqD(d, MaxS[bits]) THEN R("ok", d) ELSE R("range", MaxS[bits])
ParseUint(s, bits) ==
  IF ~AllDigits(s) THEN R("bad", "0")
  ELSE LET d == NoZeros(s) IN IF LeqD(d, MaxU[bits]) THEN R("ok", d) ELSE R("range", MaxU[bits])

ParseBool(s) == IF s \in {"1", "t", "T", "TRUE", "true", "True"} THEN R("ok", "true")
                ELSE IF s \in {"0", "f", "F", "FALSE", "false", "False"} THEN R("ok", "false") ELSE R("bad", "false")

(* other notations, as IEEE double / single *)
Notations == [x \in {} |-> R("", "")] @@ ("1e3" :> R("ok", "1000")) @@ ("1E-2" :> R("ok", "0.01")) @@ ("-2.5e+2" :> R("ok", "-250"))
   @@ ("inf" :> R("ok", "+Inf")) @@ ("+Inf" :> R("ok", "+Inf")) @@ ("-Infinity" :> R("ok", "-Inf")) @@ ("NaN" :> R("ok", "NaN"))
   @@ ("0x1p4" :> R("ok", "16")) @@ ("1e400" :> R("range", "+Inf")) @@ ("-1e400" :> R("range", "-Inf")) @@ ("1e-400" :> R("ok", "0")) @@ ("1_000" :> R("ok", "1000"))
ParseFloat(s, bits) ==
  IF s \in DOMAIN Notations THEN Notations[s]
  ELSE IF s = "1e39" THEN IF bits = 32 THEN R("range", "+Inf") ELSE R("ok", "1000000000000000000000000000000000000000")
  ELSE
  LET neg  == HasPrefix(s, "-")
      body == IF neg \/ HasPrefix(s, "+") THEN From(s, 2) ELSE s
      dot  == Index(body, ".")
      ip   == IF dot = 0 THEN body ELSE SubSeq(body, 1, dot - 1)
      fp   == IF dot = 0 THEN "" ELSE From(body, dot + 1)
      ok   == /\ (ip = "" \/ AllDigits(ip)) /\ (fp = "" \/ AllDigits(fp)) /\ ip \o fp # ""
      i2   == NoZeros(IF ip = "" THEN "0" ELSE ip)
      f2   == NoTail(fp)
  IN IF ~ok THEN R("bad", "0")
     ELSE R("ok", (IF neg THEN "-" ELSE "") \o i2 \o (IF f2 = "" THEN "" ELSE "." \o f2))

(* by the names of Go types *)
Parse(t, s) == CASE t \in {"int", "int64"}   -> ParseInt(s, 64)
                 [] t = "int8" -> ParseInt(s, 8) [] t = "int16" -> ParseInt(s, 16) [] t = "int32" -> ParseInt(s, 32)
                 [] t \in {"uint", "uint64"} -> ParseUint(s, 64)
                 [] t = "uint8" -> ParseUint(s, 8) [] t = "uint16" -> ParseUint(s, 16) [] t = "uint32" -> ParseUint(s, 32)
                 [] t = "bool"    -> ParseBool(s)
                 [] t = "float32" -> ParseFloat(s, 32)
                 [] t = "float64" -> ParseFloat(s, 64)
                 [] t = "string"  -> R("ok", s)
(* zero when malformed, the nearest bound when out of range *)
Lenient(t, s) == Parse(t, s).v
================================================================================
