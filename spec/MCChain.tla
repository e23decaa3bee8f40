--------------------------------- MODULE MCChain --------------------------------
(* Every chain of at most N handlers doing at most K steps each; handlers decide   *)
(* what to do as they run.                                                        *)
EXTENDS Chain, Json, FiniteSets
CONSTANTS N, K, Acts, Kinds
VARIABLES P, st, stable, log, grew
vars == <<P, st, stable, log, grew>>

AllActs   == {S1("next", 0), S1("trynext", 0), S1("hdr", 201), S1("write", 0), S1("panic", 0)}
OrderActs == {S1("next", 0), S1("hdr", 201), S1("look", 0)}
ExtActs   == {S1("next", 0), S1("trynext", 0), S1("hdr", 201), S1("flush", 0), S1("panic", 0), [S1("hijack", 0) EXCEPT !.n = 1]}
PanicActs == {S1("next", 0), S1("panic", 0), S1("hdr", 201)}
User == [kind |-> "user", steps |-> <<>>]
Init == /\ \E m \in 1..N : \E f \in [1..m -> Kinds] : P = [x \in 1..m |-> [User EXCEPT !.kind = f[x]]]
        /\ stable \in BOOLEAN
        /\ st = Fresh /\ log = <<>> /\ grew = FALSE

Start == st = Fresh /\ log = <<>> /\ st' = Begin(P) /\ log' = st'.evs /\ UNCHANGED <<P, stable, grew>>
Running == st # Fresh /\ st.mode # "done"
CanGrow == /\ Running /\ st.mode = "run" /\ ~grew
           /\ P[Top(st).h].kind = "user" /\ Top(st).pc = Len(P[Top(st).h].steps) + 1 /\ Len(P[Top(st).h].steps) < K
Grow == CanGrow /\ \E a \in Acts : P' = [P EXCEPT ![Top(st).h].steps = Append(@, a)]
        /\ grew' = TRUE /\ UNCHANGED <<st, stable, log>>
Run  == Running /\ st' = Move(P, st, stable) /\ log' = log \o st'.evs /\ grew' = FALSE /\ UNCHANGED <<P, stable>>
Next == Start \/ Grow \/ Run
Spec == Init /\ [][Next]_vars

Of(e) == SelectSeq(log, LAMBDA x : x.e = e)
Starts == Of("start")
(* C02 *)
AtMostOnceInOrder == \A x, y \in 1..Len(Starts) : x < y => Starts[x].h < Starts[y].h
Onion == \* when a step (also a Next) of h completes, everything started after h is over
  \A x \in 1..Len(log) : log[x].e \in {"step", "end"} =>
     \A y \in 1..(x - 1) : (log[y].e = "start" /\ log[y].h > log[x].h) =>
         \E z \in y..(x - 1) : log[z].h = log[y].h /\ log[z].e \in {"end", "unwind"}
CutByResponse == [][(st.w /\ st'.nxt > st.nxt) =>
    LET t == Top(st) IN t.pc <= Len(StepsOf(P, t.h)) /\ StepsOf(P, t.h)[t.pc].a \in {"next", "trynext"}]_vars
NothingLeftOut == (st.mode = "done" /\ ~st.w /\ ~st.esc) => st.nxt = Len(P) + 1
(* S01 *)
OneStatus == Len(Of("H")) <= 1 /\ (st.w <=> Len(Of("H")) = 1) /\ (st.w => Of("H")[1].c = st.code) /\ (~st.w => st.code = 0)
ToldTruth == \A x \in 1..Len(log) : log[x].e # "H" =>
   LET h == {y \in 1..(x - 1) : log[y].e = "H"} IN log[x].w = (h # {}) /\ log[x].c = (IF h = {} THEN 0 ELSE log[CHOOSE y \in h : TRUE].c)
(* S05: the same with responses that were flushed and connections that were taken over *)
OneStatusX == Len(Of("H")) <= 1 /\ (st.w <=> (Len(Of("H")) = 1 \/ st.tk)) /\ st.code = (IF Len(Of("H")) = 1 THEN Of("H")[1].c ELSE 0)
ToldTruthX == \A x, y \in 1..Len(log) : (x < y /\ log[y].e # "H" /\ log[x].e # "H") =>
   (log[x].w => log[y].w) /\ (log[y].c # 0 => log[y].w) /\ (log[x].w => log[y].c = log[x].c)
TakenIsTaken == [][st.tk => st'.tk /\ st'.code = st.code]_vars
(* S03 *)
Recovered == (st.mode = "done" /\ P[1].kind = "recovery") => ~st.esc /\ st.w
NoLeakWhenStable == stable => st.leaks = <<>>
NoneAgain == \A x, y \in 1..Len(log) : (log[x].e = "unwind" /\ y > x /\ log[y].e \in {"start", "step", "end", "caught"}) => log[y].h # log[x].h

Emit == (st.mode = "done" /\ \E x \in 1..Len(P) : P[x].kind = "user") =>
   PrintT("SCEN " \o ToJson([id |-> "mc", hs |-> [x \in 1..Len(P) |-> [kind |-> P[x].kind, steps |-> P[x].steps, form |-> "mix"]],
                             stable |-> stable, nf |-> FALSE, before |-> 0, method |-> "GET", reps |-> 1, caps |-> "full"]))
================================================================================
