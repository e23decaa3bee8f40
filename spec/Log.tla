------------------------------------ MODULE Log ---------------------------------
(* The access logger in a chain of handlers (S04): Chain plus what the logger       *)
(* could disturb - the request body (B = [size, err]: size bytes, then an error     *)
(* "" / "broken"; err = "nil": no body at all; fp: the rest of the request) and what was sent - and the lines    *)
(* it writes, here their statuses.                                                 *)
EXTENDS Chain, Client
LFresh == [st |-> Fresh, pos |-> 0, lines |-> <<>>, sent |-> 0, x |-> FALSE, at |-> <<>>, froms |-> <<>>]

AtStep(P, st) == st.stack # <<>> /\ st.mode = "run" /\ Top(st).pc <= Len(StepsOf(P, Top(st).h))
Cur(P, st)    == StepsOf(P, Top(st).h)[Top(st).pc]
Got(B, pos, n) == IF B.err = "nil" THEN 0 ELSE IF n = -1 \/ pos + n > B.size THEN B.size - pos ELSE n
Err(B, pos, n) == CASE B.err = "nil" -> "nil"
                    [] n >= 0 /\ pos + n <= B.size -> ""
                    [] OTHER -> IF B.err # "" THEN B.err ELSE IF n = -1 THEN "" ELSE "eof"

LBegin(P) == [LFresh EXCEPT !.st = Begin(P)]
LMove(P, l, stable, B) ==
  LET st == l.st
      s  == Move(P, st, stable)
      h  == Top(st).h
      reading == AtStep(P, st) /\ Cur(P, st).a = "read"
      asking  == AtStep(P, st) /\ Cur(P, st).a = "req"
      writing == AtStep(P, st) /\ Cur(P, st).a \in {"write", "string"}
      n  == IF reading THEN Cur(P, st).n ELSE 0
      ev == [e |-> "read", h |-> h, j |-> Top(st).pc, w |-> st.w, c |-> st.code,
             x |-> IF asking THEN B.fp ELSE ToString(Got(B, l.pos, n)) \o "/" \o Err(B, l.pos, n)]
  IN [st    |-> IF reading \/ asking THEN [s EXCEPT !.evs = <<ev>> \o @] ELSE s,
      pos   |-> IF reading THEN l.pos + Got(B, l.pos, n) ELSE l.pos,
      sent  |-> IF writing THEN l.sent + Cur(P, st).n ELSE l.sent,
      at    |-> IF AtStep(P, st) /\ P[h].kind = "logger" THEN (h :> l.pos) @@ l.at ELSE l.at,   \* the body it will show starts there
      froms |-> IF st.mode = "run" /\ P[h].kind = "logger" /\ Top(st).pc > Len(StepsOf(P, h)) THEN Append(l.froms, l.at[h]) ELSE l.froms,
      x     |-> l.x \/ (st.mode = "panic" /\ P[h].kind = "recovery"),
      lines |-> IF st.mode = "run" /\ P[h].kind = "logger" /\ Top(st).pc > Len(StepsOf(P, h))
                THEN Append(l.lines, IF st.w THEN st.code ELSE 200) ELSE l.lines]

(* a whole run: the events, and how it ended *)
RECURSIVE RunOn(_, _, _, _, _)
RunOn(P, l, stable, B, evs) ==
  IF l.st.mode = "done" THEN [l |-> l, evs |-> evs]
  ELSE LET m == LMove(P, l, stable, B) IN RunOn(P, m, stable, B, evs \o m.st.evs)
LRun(P, stable, B) == LET l == LBegin(P) IN RunOn(P, l, stable, B, l.st.evs)

(* the header fields handlers of these chains may set *)
Headers == {"Content-Type", "X-Content-Type-Options", "X-A", "Cache-Control", "Pragma", "Expires"}
(* what a log line must carry: q = [method, uri, hs, peer], status *)
Line(q, status) == {q.method, q.uri, RealIp(q), ToString(status)} \cup (IF First(q, "Trace-Id") = "" THEN {} ELSE {First(q, "Trace-Id")})
(* the body it shows below: JSON only, when asked for, at most 1 MB *)
MB == 1048576
Shows(logbody, ctype, B) == logbody /\ B.err # "nil" /\ Contains(ctype, "application/json")
Shown(t, B, from) == /\ t[1] = Got(B, from, MB)
                     /\ \E x \in 2..Len(t) : t[x] = from
================================================================================
