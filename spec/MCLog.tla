---------------------------------- MODULE MCLog ---------------------------------
(* Every chain of at most N handlers (some of them loggers) doing at most K steps   *)
(* each, over a few bodies: the run is that of the chain without the loggers.       *)
EXTENDS Log, Json, FiniteSets
CONSTANTS N, K, Kinds
VARIABLES P, B, ph, l, log
vars == <<P, B, ph, l, log>>
Acts  == {S1("next", 0), S1("hdr", 201), S1("panic", 0), [a |-> "write", c |-> 0, n |-> 2], [a |-> "read", c |-> 0, n |-> 1], [a |-> "read", c |-> 0, n |-> -1]}
Bodies == {[size |-> 2, err |-> ""], [size |-> 1, err |-> "broken"], [size |-> 0, err |-> "nil"]}
User == [kind |-> "user", steps |-> <<>>]
Users == {h \in 1..Len(P) : P[h].kind = "user"}
Init == /\ \E m \in 1..N : \E f \in [1..m -> Kinds] : P = [x \in 1..m |-> [User EXCEPT !.kind = f[x]]]
        /\ (\E x \in 1..Len(P) : P[x].kind \in {"logger", "logoff"}) /\ Users # {}
        /\ ~\E x, y \in 1..Len(P) : P[x].kind = "logger" /\ P[y].kind = "logoff"      \* one setting for all
        /\ B \in Bodies /\ ph = "grow" /\ l = LFresh /\ log = <<>>
(* the steps are filled in one handler after another *)
Grow == /\ ph = "grow" /\ \E h \in Users : /\ Len(P[h].steps) < K /\ \A g \in Users : g > h => P[g].steps = <<>>
                                           /\ \E a \in Acts : P' = [P EXCEPT ![h].steps = Append(@, a)]
        /\ UNCHANGED <<B, ph, l, log>>
Start == /\ ph = "grow" /\ ph' = "run" /\ l' = LBegin(P) /\ log' = l'.st.evs /\ UNCHANGED <<P, B>>
Run  == /\ ph = "run" /\ l.st.mode # "done"
        /\ l' = LMove(P, l, FALSE, B) /\ log' = log \o l'.st.evs /\ UNCHANGED <<P, B, ph>>
Next == Grow \/ Start \/ Run
Spec == Init /\ [][Next]_vars

IsLog(h)   == P[h].kind \in {"logger", "logoff"}
Sans       == SelectSeq(P, LAMBDA x : x.kind \notin {"logger", "logoff"})
Ren(h)   == IF h = 0 THEN 0 ELSE h - Cardinality({g \in 1..h : IsLog(g)})
Alone      == LRun(Sans, FALSE, B)
Over       == ph = "run" /\ l.st.mode = "done"
Transparent == Over =>
   LET a == Alone IN
   /\ [x \in 1..Len(log) |-> [log[x] EXCEPT !.h = Ren(@)]] = a.evs
   /\ a.l.st.w = l.st.w /\ a.l.st.code = l.st.code /\ a.l.st.esc = l.st.esc /\ a.l.pos = l.pos /\ a.l.sent = l.sent
(* a request that passes the first logger and leaves no panic behind it gives one line per logger that ran *)
Truthful == Over =>
   /\ Len(l.lines) <= Cardinality({h \in 1..Len(P) : P[h].kind = "logger" /\ h < l.st.nxt})
   /\ ((~l.st.esc /\ ~l.x) => Len(l.lines) = Cardinality({h \in 1..Len(P) : P[h].kind = "logger" /\ h < l.st.nxt}))
   /\ (P[1].kind = "logger" /\ ~l.st.esc => l.lines # <<>> /\ l.lines[Len(l.lines)] = (IF l.st.w THEN l.st.code ELSE 200))
Emit == (Over /\ \A h \in Users : Len(P[h].steps) > 0) =>
   PrintT("SCEN " \o ToJson([id |-> "mc", hs |-> [x \in 1..Len(P) |-> [kind |-> P[x].kind, steps |-> P[x].steps, form |-> "mix"]],
      stable |-> FALSE, nf |-> FALSE, before |-> 0, method |-> "POST", reps |-> 1, body |-> [size |-> B.size, err |-> B.err], ctype |-> "application/json",
      q |-> [method |-> "POST", uri |-> "", hs |-> <<>>, peer |-> "192.0.2.1:1234", tls |-> FALSE], logbody |-> TRUE, color |-> TRUE]))
================================================================================
