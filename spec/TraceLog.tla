--------------------------------- MODULE TraceLog -------------------------------
(* Recorded runs of chains with the access logger (S04).                           *)
EXTENDS Log, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES k, r, n, i, l
vars == <<k, r, n, i, l>>
View == <<k, r, n, i>>
S   == Trace[k]
P   == S.hs
Ob  == S.obs[r]
Init == k \in 1..Len(Trace) /\ r = 1 /\ n = 0 /\ i = 0 /\ l = LFresh
Prefix(evs) == i + Len(evs) <= Len(Ob.evs) /\ \A x \in 1..Len(evs) : evs[x] = Ob.evs[i + x]
Set(q)  == {q[x] : x \in 1..Len(q)}
Final == /\ i = Len(Ob.evs)
         /\ Ob.esc = l.st.esc
         /\ Ob.codes = (IF l.st.w THEN <<l.st.code>> ELSE <<>>)
         /\ (~l.x => Ob.sent = l.sent)
         /\ Set(Ob.hdrs) \subseteq Headers
         /\ Len(Ob.lines) = Len(l.lines)
         /\ \A x \in 1..Len(l.lines) : /\ Line(S.q, l.lines[x]) \subseteq Set(Ob.lines[x])
                                          /\ Ob.ansi[x] = S.color
                                          /\ IF Shows(S.logbody, S.ctype, S.body) THEN Shown(Ob.texts[x], S.body, l.froms[x]) ELSE Ob.texts[x] = <<-1>>
Drive == \/ /\ l.st.mode # "done" \/ n = 0
            /\ l' = (IF n = 0 THEN LBegin(P) ELSE LMove(P, l, S.stable, S.body))
            /\ Prefix(l'.st.evs)
            /\ i' = i + Len(l'.st.evs) /\ n' = n + 1 /\ UNCHANGED <<k, r>>
         \/ /\ l.st.mode = "done" /\ n > 0 /\ Final
            /\ r' = r + 1 /\ n' = 0 /\ i' = 0 /\ l' = LFresh /\ UNCHANGED k
Step == r <= Len(S.obs) /\ Drive
Done == /\ r = Len(S.obs) + 1
        /\ PrintT("ACCEPTED " \o ToString(k))
        /\ r' = r + 1 /\ UNCHANGED <<k, n, i, l>>
Next == Step \/ Done
Spec == Init /\ [][Next]_vars
================================================================================
