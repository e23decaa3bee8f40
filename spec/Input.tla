---------------------------------- MODULE Input ---------------------------------
(* What a handler reads of a request as it came, and the headers it sets itself.    *)
(* A request is [hs, size, fail]: its header lines in order, the length of its body *)
(* and, when reading the body breaks off, after how many bytes (-1: it does not).   *)
(* The state is [pos, closed, broken, w, out]: body bytes handed out so far, the     *)
(* body was read to its end and closed, a handler was told that it broke off, the   *)
(* response has started, its header as set so far.  *)
EXTENDS Str
Of(hs, n) == LET k == HeaderName(n) f == SelectSeq(hs, LAMBDA h : HeaderName(h[1]) = k) IN [j \in 1..Len(f) |-> f[j][2]]
First(hs, n) == IF Of(hs, n) = <<>> THEN "" ELSE Of(hs, n)[1]

Fresh    == [pos |-> 0, closed |-> FALSE, broken |-> FALSE, w |-> FALSE, out |-> <<>>]
End(q)   == IF q.fail >= 0 THEN q.fail ELSE q.size
Left(q, st) == IF st.closed THEN 0 ELSE End(q) - st.pos
Min(a, b) == IF a < b THEN a ELSE b
(* the answer of a step: s text, n bytes of the body, from position `off', err      *)
Ans(s, off, n, err) == [s |-> s, off |-> off, n |-> n, err |-> err]
Put(out, n, v) == Append(SelectSeq(out, LAMBDA h : h[1] # HeaderName(n)), <<HeaderName(n), v>>)
(* whether an error is reported again, or when a closed body is read, is left open  *)
Answer(q, st, op) ==
  CASE op.a = "get" -> Ans(First(q.hs, op.name), 0, 0, FALSE)
    [] op.a \in {"set", "start"} -> Ans("", 0, 0, FALSE)
    [] op.a \in {"bytes", "text"} -> IF q.fail >= 0 /\ ~st.closed THEN Ans("", 0, 0, TRUE) ELSE Ans("", st.pos, Left(q, st), FALSE)
    [] op.a = "read" -> Ans("", st.pos, Min(op.n, Left(q, st)), op.n > Left(q, st) /\ q.fail >= 0)
    [] op.a = "all"  -> Ans("", st.pos, Left(q, st), q.fail >= 0)
After(q, st, op) ==
  CASE op.a = "get" -> st
    [] op.a = "set" -> IF st.w THEN st ELSE [st EXCEPT !.out = Put(@, op.name, op.v)]
    [] op.a = "start" -> [st EXCEPT !.w = TRUE]
    [] op.a \in {"bytes", "text"} -> [st EXCEPT !.pos = @ + Left(q, st), !.closed = @ \/ q.fail < 0, !.broken = @ \/ q.fail >= 0]
    [] OTHER -> [st EXCEPT !.pos = @ + Answer(q, st, op).n, !.broken = @ \/ Answer(q, st, op).err]
================================================================================
