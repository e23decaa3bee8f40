-------------------------------- MODULE TraceChain ------------------------------
(* Recorded runs of handler chains.                                               *)
EXTENDS Chain, Json, IOUtils
Prop  == IOEnv.PROP
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES k, r, n, i, st
vars == <<k, r, n, i, st>>
View == <<k, r, n, i>>

S   == Trace[k]
P   == S.hs
Ob  == S.obs[r]
Init == k \in 1..Len(Trace) /\ r = 1 /\ n = 0 /\ i = 0 /\ st = Fresh

(* What C02, S03 and S05 look at in an event *)
Same(a, b) == IF Prop # "C02" THEN a = b
              ELSE a.e = b.e /\ a.h = b.h /\ a.j = b.j /\ (a.w = b.w)
Prefix(evs) == i + Len(evs) <= Len(Ob.evs) /\ \A x \in 1..Len(evs) : Same(evs[x], Ob.evs[i + x])

Uniq(w) == P[w[1]].steps[w[2]].n = 1        \* its text can be told apart
Set(q)  == {q[x] : x \in 1..Len(q)}
(* the answer of a real server to the same request: the status is the one given, and
   an answer the recovery began is a whole one, whatever was declared before *)
OnWire(s) ==
  /\ S.net.code = (IF s.code # 0 THEN s.code ELSE IF s.tk THEN 299 ELSE 200)   \* 299: what a handler says on a connection it took
  /\ \A x \in 1..Len(S.net.fl) : S.net.fl[x]   \* what was flushed had arrived
  /\ (s.tk /\ s.code = 0) => S.net.err = "" /\ S.net.n = (IF S.method = "HEAD" THEN 0 ELSE 2)
  /\ (s.rec /\ ~s.tk) => /\ S.net.err = ""
                         /\ (~S.stable /\ S.method # "HEAD") => S.net.n > 0
Final(s) ==
  /\ i = Len(Ob.evs)
  /\ Ob.esc = s.esc
  /\ Prop # "C02" =>
       /\ Ob.codes = (IF s.code # 0 THEN <<s.code>> ELSE <<>>)
       /\ {w \in Set(s.leaks) : Uniq(w)} = Set(Ob.leaks)
       /\ S.wire /\ ~s.esc => OnWire(s)

Drive == /\ Prop # "S01"
         /\ \/ /\ st.mode # "done" \/ n = 0
               /\ st' = (IF n = 0 THEN Begin(P) ELSE Move(P, st, S.stable))
               /\ Prefix(st'.evs)
               /\ i' = i + Len(st'.evs) /\ n' = n + 1 /\ UNCHANGED <<k, r>>
            \/ /\ st.mode = "done" /\ n > 0 /\ Final(st)
               /\ r' = r + 1 /\ n' = 0 /\ i' = 0 /\ st' = Fresh /\ UNCHANGED k

(* S01: whatever ran, the status given and the status told agree. st.nxt = 1 + the number of status lines given,
   st.esc: had the response been started before the current step *)
Mon == /\ Prop = "S01" /\ i < Len(Ob.evs)
       /\ LET e == Ob.evs[i + 1]
              s == P[e.h].steps[e.j]
              c == IF e.e = "step" THEN StartCode(s) ELSE 0
          IN IF e.e = "H"
             THEN /\ ~st.w
                  /\ st' = [st EXCEPT !.w = TRUE, !.code = e.c]
             ELSE /\ e.w = st.w /\ e.c = st.code
                  /\ (c # 0 => st.w)
                  /\ (c # 0 /\ ~st.esc => st.code = c)
                  /\ st' = [st EXCEPT !.esc = st.w]
       /\ i' = i + 1 /\ n' = n + 1 /\ UNCHANGED <<k, r>>
MonEnd == /\ Prop = "S01" /\ i = Len(Ob.evs)
          /\ Ob.codes = (IF st.w THEN <<st.code>> ELSE <<>>)
          /\ Ob.early = FALSE
          /\ S.wire /\ ~Ob.esc => S.net.code = (IF st.w THEN st.code ELSE 200)
          /\ r' = r + 1 /\ n' = 0 /\ i' = 0 /\ st' = Fresh /\ UNCHANGED k

Step == r <= Len(S.obs) /\ (Drive \/ Mon \/ MonEnd)
Done == /\ r = Len(S.obs) + 1
        /\ PrintT("ACCEPTED " \o ToString(k))
        /\ r' = r + 1 /\ UNCHANGED <<k, n, i, st>>
Next == Step \/ Done
Spec == Init /\ [][Next]_vars
================================================================================
