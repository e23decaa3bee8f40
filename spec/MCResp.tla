---------------------------------- MODULE MCResp --------------------------------
(* Every program of up to MaxOps operations, split over two handlers everywhere.     *)
EXTENDS Resp
CONSTANTS MaxOps, Wide
VARIABLES req
O(a) == [a |-> a, code |-> 0, text |-> "", ct |-> "", name |-> "", value |-> "", inline |-> FALSE, bad |-> FALSE, mt |-> 0]
Heads == {[O("set") EXCEPT !.name = "X-A", !.value = "1"], [O("add") EXCEPT !.name = "X-A", !.value = "2"], [O("cookie") EXCEPT !.name = "c", !.value = "v"], O("nocache"),
          [O("set") EXCEPT !.name = CT, !.value = "text/css"]}
Starts == {[O("String") EXCEPT !.code = 201, !.text = "s"], [O("HTMLRaw") EXCEPT !.code = 404, !.text = "h"], [O("Data") EXCEPT !.code = 204, !.ct = "a/b", !.text = "d"],
           [O("Write") EXCEPT !.text = "<p>w"], [O("Write") EXCEPT !.text = ""], [O("WriteHeader") EXCEPT !.code = 503], O("NotModified"), O("Forbidden"),
           [O("Stream") EXCEPT !.ct = "a/c", !.text = ""], [O("Stream") EXCEPT !.ct = "a/c", !.text = "st", !.bad = TRUE],
           [O("HTML") EXCEPT !.code = 418, !.value = "n", !.text = "t"]}
Lasts == {[O("HTMLdef") EXCEPT !.code = 404, !.value = "n", !.text = "t"], [O("Found") EXCEPT !.value = "next"], [O("MovedPermanently") EXCEPT !.value = "/a?b"],
          [O("JSON") EXCEPT !.code = 202, !.text = "[1]"], [O("JSON") EXCEPT !.code = 202, !.bad = TRUE],
          [O("Download") EXCEPT !.name = "a\"b", !.text = "0123456789", !.mt = 1000000000], [O("Download") EXCEPT !.name = "n", !.bad = TRUE, !.mt = 1],
          [O("Attachment") EXCEPT !.name = "x;y", !.text = "0123456789", !.inline = TRUE], [O("File") EXCEPT !.name = "f.txt", !.text = "0123456789", !.mt = 1000000000]}
Served == {"Download", "Attachment", "File"}
Q(m, split, ops, lo, hi, ims) == [m |-> m, split |-> split, ops |-> ops, lo |-> lo, hi |-> hi, ims |-> ims]
Bodies == {q \in UNION {[1..n -> Heads \cup Starts] : n \in 0..MaxOps} : TRUE}
Init == \/ \E q \in Bodies, m \in {"GET", "HEAD"} : \E sp \in 0..Len(q) : (Len(q) < 3 \/ m = "GET") /\ req = Q(m, sp, q, -1, -1, -1)
        \/ \E h \in Heads, z \in Lasts, m \in {"GET", "HEAD"} : \E sp \in 0..2 : req = Q(m, sp, <<h, z>>, -1, -1, -1)
        \/ \E z \in {x \in Lasts : x.a \in Served}, lo \in -1..11, hi \in -1..12, ims \in {-1, 999999999, 1000000000} :
              /\ (lo = -1 => hi # 0) /\ (lo # -1 /\ hi # -1 => hi >= lo) /\ (Wide \/ (lo \in {-1, 0, 3, 9, 10} /\ hi \in {-1, 1, 4, 9, 10, 12}))
              /\ ~(z.a = "File" /\ z.bad) /\ req = Q("GET", 1, <<z>>, lo, hi, ims)
Next == UNCHANGED req
Spec == Init /\ [][Next]_req
F == Final(req)
S(j) == Run(req, Fresh, SubSeq(req.ops, 1, j), req.split, 1)    \* after j operations
Starter == {j \in 1..Len(req.ops) : S(j).started /\ ~S(j - 1).started}
(* S02 *)
FirstDecides == \A j \in Starter : F.code = S(j).code /\ F.sent = S(j).sent
AskedStatus  == \A j \in Starter : req.ops[j].a \in {"String", "HTMLRaw", "Data", "JSON", "XML", "HTML", "HTMLdef", "Abort", "WriteHeader"} => F.code = req.ops[j].code
OneType      == Len(Values(F.sent, CT)) <= 1
HeadsArrive  == LET e == IF Starter = {} THEN Len(req.ops) ELSE MinOf(Starter)
                IN \A j \in 1..e : req.ops[j].a \in {"add", "cookie"} =>
                     \/ SeqHas(Values(F.sent, IF req.ops[j].a = "add" THEN req.ops[j].name ELSE "Set-Cookie"), IF req.ops[j].a = "add" THEN req.ops[j].value ELSE req.ops[j].name \o "=" \o req.ops[j].value)
                     \/ \E x \in (j + 1)..e : req.ops[x].a = "set" /\ req.ops[x].name = req.ops[j].name
BodyInOrder  == F.free \/ F.code \in {206, 304} \/
                LET RECURSIVE C(_) C(j) == IF j > Len(req.ops) \/ (j = req.split + 1 /\ S(req.split).started) THEN ""
                                           ELSE (IF req.ops[j].a = "HTML" THEN req.ops[j].name \o "|" \o req.ops[j].value \o "|" ELSE "") \o (IF (req.ops[j].bad /\ req.ops[j].a # "Stream") \/ req.ops[j].a = "HTMLdef" THEN "" ELSE req.ops[j].text) \o C(j + 1)
                IN F.body = C(1)
(* D01 *)
FailedLeavesNothing == \A j \in 1..Len(req.ops) : (req.ops[j].a = "Download" /\ req.ops[j].bad) => S(j).hdr = S(j - 1).hdr /\ S(j).started = S(j - 1).started
RangeIsPart == F.code = 206 => /\ Len(F.body) >= 1 /\ Contains("0123456789", F.body)
                               /\ req.lo # -1 => HasPrefix(F.body, Ch("0123456789", req.lo + 1))
                               /\ req.hi # -1 => (IF req.lo = -1 THEN Len(F.body) = MinOf({req.hi, 10}) ELSE Len(F.body) = MinOf({req.hi, 9}) - req.lo + 1)
Unchanged304 == F.code = 304 /\ req.ims # -1 => req.ims >= req.ops[Len(req.ops)].mt
NameIsOne == \A n1, n2 \in {"a", "b", "%61", "a\"", ";"} : \A t \in {"a", "b", "%61", "%2561", "%22", "a%22", "%3B"} : Encodes(t, n1) /\ Encodes(t, n2) => n1 = n2
Emit == PrintT("SCEN " \o ToJson([id |-> "mc", reqs |-> <<req>>]))
================================================================================
