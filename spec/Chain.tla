---------------------------------- MODULE Chain ---------------------------------
(* How one request runs through its chain of handlers.                            *)
(*                                                                                *)
(* A chain is a sequence of handlers [kind, steps]; kind "user" handlers leave     *)
(* events, the others are the middleware the framework ships.  A step is           *)
(* [a, c, n]: an action with a code and a size.                                    *)
(*                                                                                *)
(* State: stack of running handlers (top last), nxt = the first handler not yet    *)
(* started, w/code = what the context says about the response, mode = "run",       *)
(* "panic" or "done", rec = the recovery middleware gave the status, tk = a        *)
(* handler took the connection over, evs = the events of the last transition.      *)
EXTENDS Str, TLC

Silent(P, h) == P[h].kind # "user"
S1(a, c)     == [a |-> a, c |-> c, n |-> 0]
StepsOf(P, h) == CASE P[h].kind = "user"      -> P[h].steps
                   [] P[h].kind = "recovery"  -> <<S1("next", 0)>>
                   [] P[h].kind = "logger"    -> <<S1("next", 0)>>
                   [] P[h].kind = "logoff"    -> <<S1("next", 0)>>
                   [] P[h].kind = "cors"      -> <<S1("next", 0)>>
                   [] P[h].kind = "preflight" -> <<S1("hdr", 204)>>

(* the status a step asks for when the response is not started; 0: it starts none *)
Given   == {"hdr", "string", "data", "html", "json", "xml", "abort", "tpl", "stderr", "stdredir", "bytes"}
Named   == [moved |-> 301, found |-> 302, notmod |-> 304, bad |-> 400, unauth |-> 401, forbid |-> 403,
            notfound |-> 404, ise |-> 500, file |-> 200, nofile |-> 404, direct |-> 301, serve |-> 200, download |-> 200,
            attach |-> 200, stdnotfound |-> 404, stdfile |-> 200, stdcontent |-> 200]
Nothing == {"look", "nodownload", "dirdownload", "header", "cookie", "next", "trynext", "panic", "nostream", "read", "req", "declare", "notify"}
StartCode(s) == CASE s.a \in Given -> s.c
                  [] s.a \in {"write", "flush"} -> 200
                  [] s.a = "stream" -> IF s.n > 0 THEN 200 ELSE 0
                  [] s.a \in DOMAIN Named -> Named[s.a]
                  [] s.a = "badhdr" -> 0
                  [] s.a \in Nothing -> 0

Fresh == [stack |-> <<>>, nxt |-> 1, w |-> FALSE, code |-> 0, mode |-> "run", esc |-> FALSE, leaks |-> <<>>, who |-> <<0, 0>>, rec |-> FALSE, tk |-> FALSE, evs |-> <<>>]

Ev(e, h, j, st)  == [e |-> e, h |-> h, j |-> j, w |-> st.w, c |-> st.code]
Tell(P, st, e, h, j) == IF Silent(P, h) THEN st ELSE [st EXCEPT !.evs = Append(@, Ev(e, h, j, st))]
Respond(st, c)   == IF st.w \/ c = 0 THEN st
                    ELSE [st EXCEPT !.w = TRUE, !.code = c, !.evs = Append(@, [e |-> "H", h |-> 0, j |-> 0, w |-> FALSE, c |-> c])]
Top(st)          == st.stack[Len(st.stack)]
Pop(st)          == [st EXCEPT !.stack = SubSeq(@, 1, Len(@) - 1)]
Advance(st)      == [st EXCEPT !.stack[Len(st.stack)].pc = @ + 1]
Launch(P, st)    == Tell(P, [st EXCEPT !.stack = Append(@, [h |-> st.nxt, pc |-> 1]), !.nxt = @ + 1], "start", st.nxt, 0)

(* the step the top handler is at has finished *)
Finish(P, st, e) == Advance(Tell(P, st, e, Top(st).h, Top(st).pc))

(* the top handler is gone: its loop starts the next one, or ends *)
Gone(P, st) ==
  LET s == Pop(st) IN
  IF ~s.w /\ s.nxt <= Len(P) THEN Launch(P, s)
  ELSE IF s.stack = <<>> THEN [s EXCEPT !.mode = "done"]
  ELSE Finish(P, s, "step")

Begin(P) == IF Len(P) = 0 THEN [Fresh EXCEPT !.mode = "done"] ELSE Launch(P, Fresh)

(* one transition; `stable`: panic texts are kept out of the response *)
Move(P, st0, stable) ==
  LET st == [st0 EXCEPT !.evs = <<>>]
      h  == Top(st).h
      pc == Top(st).pc
      ss == StepsOf(P, h)
      atNext == pc <= Len(ss) /\ ss[pc].a = "trynext"
  IN
  IF st.mode = "panic" THEN
     CASE P[h].kind = "recovery" ->
            LET r == Respond(st, 500) IN
            Gone(P, [r EXCEPT !.mode = "run", !.rec = @ \/ ~st.w, !.leaks = IF stable \/ st.tk THEN @ ELSE Append(@, st.who)])
       [] P[h].kind # "recovery" /\ atNext /\ st.who # <<h, pc>> -> Finish(P, [st EXCEPT !.mode = "run"], "caught")
       [] OTHER -> LET u == Pop(Tell(P, st, "unwind", h, 0))
                   IN IF u.stack = <<>> THEN [u EXCEPT !.mode = "done", !.esc = TRUE] ELSE u
  ELSE IF pc > Len(ss) THEN
     LET r == IF P[h].kind = "recovery" THEN Respond(st, 200) ELSE st
     IN Gone(P, Tell(P, r, "end", h, 0))
  ELSE
     LET s == ss[pc] IN
     CASE s.a \in {"next", "trynext"} -> IF st.nxt <= Len(P) THEN Launch(P, st) ELSE Finish(P, st, "step")
       [] s.a = "panic" -> [st EXCEPT !.mode = "panic", !.who = <<h, pc>>]
       [] s.a = "badhdr" -> IF st.w THEN Finish(P, st, "step") ELSE [st EXCEPT !.mode = "panic", !.who = <<h, pc>>]
       [] s.a = "hijack" -> \* n: can the writer do that
            Finish(P, IF s.n = 1 /\ ~st.tk THEN [st EXCEPT !.w = TRUE, !.tk = TRUE] ELSE st, "step")
       [] OTHER -> Finish(P, Respond(st, StartCode(s)), "step")
================================================================================
