---------------------------------- MODULE Str ----------------------------------
(* String operators over TLA+ strings as TLC evaluates them (strings are       *)
(* sequences of characters; TLC overrides Len, SubSeq and \o for them).        *)
EXTENDS Naturals, Integers, Sequences

Ch(s, i)        == SubSeq(s, i, i)
From(s, i)      == SubSeq(s, i, Len(s))
HasPrefix(s, p) == Len(p) <= Len(s) /\ SubSeq(s, 1, Len(p)) = p
HasSuffix(s, p) == Len(p) <= Len(s) /\ SubSeq(s, Len(s) - Len(p) + 1, Len(s)) = p
TrimPrefix(s, p) == IF HasPrefix(s, p) THEN From(s, Len(p) + 1) ELSE s
TrimSuffix(s, p) == IF HasSuffix(s, p) THEN SubSeq(s, 1, Len(s) - Len(p)) ELSE s

MinOf(S) == CHOOSE x \in S : \A y \in S : x <= y
MaxOf(S) == CHOOSE x \in S : \A y \in S : x >= y

Positions(s, sub) == {i \in 1..(Len(s) - Len(sub) + 1) : SubSeq(s, i, i + Len(sub) - 1) = sub}
Index(s, sub)     == LET I == Positions(s, sub) IN IF I = {} THEN 0 ELSE MinOf(I)
LastIndex(s, sub) == LET I == Positions(s, sub) IN IF I = {} THEN 0 ELSE MaxOf(I)
Contains(s, sub)  == Positions(s, sub) # {}
Count(s, c)       == LET I == Positions(s, c) IN
                     IF I = {} THEN 0 ELSE LET RECURSIVE N(_) N(S) == IF S = {} THEN 0 ELSE 1 + N(S \ {MinOf(S)}) IN N(I)

(* ASCII white space as Go's strings.TrimSpace sees it. *)
Space == {" ", "\t", "\n", "\r", "\f"}
RECURSIVE TrimL(_)
TrimL(s) == IF s # "" /\ Ch(s, 1) \in Space THEN TrimL(From(s, 2)) ELSE s
RECURSIVE TrimR(_)
TrimR(s) == IF s # "" /\ Ch(s, Len(s)) \in Space THEN TrimR(SubSeq(s, 1, Len(s) - 1)) ELSE s
TrimSpace(s) == TrimR(TrimL(s))

RECURSIVE Split(_, _)
Split(s, sep) == LET i == Index(s, sep) IN
                 IF i = 0 THEN <<s>> ELSE <<SubSeq(s, 1, i - 1)>> \o Split(From(s, i + Len(sep)), sep)

RECURSIVE Join(_, _)
Join(q, sep) == IF Len(q) = 0 THEN ""
                ELSE IF Len(q) = 1 THEN q[1] ELSE q[1] \o sep \o Join(Tail(q), sep)

MapSeq(f(_), q) == [i \in 1..Len(q) |-> f(q[i])]
SeqHas(q, x)    == \E i \in 1..Len(q) : q[i] = x
Rev(q)          == [i \in 1..Len(q) |-> q[Len(q) + 1 - i]]
RECURSIVE Flat(_)
Flat(q) == IF Len(q) = 0 THEN <<>> ELSE q[1] \o Flat(Tail(q))

LowerTab == [A |-> "a", B |-> "b", C |-> "c", D |-> "d", E |-> "e", F |-> "f", G |-> "g", H |-> "h",
             I |-> "i", J |-> "j", K |-> "k", L |-> "l", M |-> "m", N |-> "n", O |-> "o", P |-> "p",
             Q |-> "q", R |-> "r", S |-> "s", T |-> "t", U |-> "u", V |-> "v", W |-> "w", X |-> "x",
             Y |-> "y", Z |-> "z"]
UpperSet == DOMAIN LowerTab
RECURSIVE Lower(_)
Lower(s) == IF s = "" THEN "" ELSE
            LET c == Ch(s, 1) IN (IF c \in UpperSet THEN LowerTab[c] ELSE c) \o Lower(From(s, 2))
UpperTab == [a |-> "A", b |-> "B", c |-> "C", d |-> "D", e |-> "E", f |-> "F", g |-> "G", h |-> "H", i |-> "I",
             j |-> "J", k |-> "K", l |-> "L", m |-> "M", n |-> "N", o |-> "O", p |-> "P", q |-> "Q", r |-> "R",
             s |-> "S", t |-> "T", u |-> "U", v |-> "V", w |-> "W", x |-> "X", y |-> "Y", z |-> "Z"]
Capital(s) == IF s # "" /\ Ch(s, 1) \in DOMAIN UpperTab THEN UpperTab[Ch(s, 1)] \o From(s, 2) ELSE s
(* names of headers are the same whatever the case of their letters            *)
HeaderName(s) == LET p == Split(Lower(s), "-") IN Join([j \in 1..Len(p) |-> Capital(p[j])], "-")
================================================================================
