---------------------------------- MODULE MCBind --------------------------------
(* Binding, exhaustively over small types and requests. Mode: "fields" (B02),        *)
(* "select" (B01), "rules" (B03), "files" (B04), "gin" (B05).                       *)
EXTENDS Bind, Json
CONSTANTS Mode, Deep
VARIABLES fs, q, via, direct
vars == <<fs, q, via, direct>>

Fld(n, k, t) == [n |-> n, k |-> k, p |-> FALSE, l |-> FALSE, e |-> FALSE, ex |-> TRUE, t |-> t, d |-> "", r |-> <<>>, pre |-> FALSE, tf |-> "", tz |-> "", sub |-> <<>>, a |-> 0]
NoDoc == [t |-> "null", s |-> "", o |-> <<>>, a |-> <<>>]
DStr(s) == [NoDoc EXCEPT !.t = "str", !.s = s]
DNum(s) == [NoDoc EXCEPT !.t = "num", !.s = s]
DObj(o) == [NoDoc EXCEPT !.t = "obj", !.o = o]
DArr(a) == [NoDoc EXCEPT !.t = "arr", !.a = a]
Q0 == [m |-> "GET", ct |-> "", query |-> <<>>, badq |-> FALSE, bk |-> "none", body |-> <<>>, parts |-> <<>>, doc |-> NoDoc, cut |-> FALSE, hs |-> <<>>, uri |-> <<>>, jt |-> <<>>]
Pt(n, s) == [n |-> n, file |-> FALSE, fname |-> "", z |-> 0, s |-> s]
Fl(n, s) == [n |-> n, file |-> TRUE, fname |-> IF s = "" THEN "" ELSE s \o ".txt", z |-> Len(s), s |-> s]

(* ------------------------------------------------------------------ fields *)
In(g)   == [Fld("N", "struct", "") EXCEPT !.sub = <<g>>]
Shapes(n, t) ==
  {Fld(n, "string", t), [Fld(n, "string", t) EXCEPT !.pre = TRUE], Fld(n, "int8", t), [Fld(n, "int8", t) EXCEPT !.d = "5"],
   [Fld(n, "int8", t) EXCEPT !.d = "300"], Fld(n, "bool", t), [Fld(n, "int8", t) EXCEPT !.l = TRUE, !.pre = TRUE],
   [Fld(n, "string", t) EXCEPT !.l = TRUE, !.d = "7"], [Fld(n, "int8", t) EXCEPT !.p = TRUE], [Fld(n, "uint8", t) EXCEPT !.p = TRUE, !.pre = TRUE, !.d = "1"],
   [Fld(n, "time", t) EXCEPT !.tf = "unix", !.p = TRUE]}
Idle(n, t) == {[Fld(n, "int8", "-") EXCEPT !.pre = TRUE, !.d = "5"], [Fld(n, "string", "") EXCEPT !.pre = TRUE], [Fld("u" \o n, "int", t) EXCEPT !.ex = FALSE]}
Nests(n, t) == {[In(Fld("M", "int8", t)) EXCEPT !.n = n], [In(Fld("M", "int8", t)) EXCEPT !.n = n, !.p = TRUE], [In([Fld("M", "int8", t) EXCEPT !.d = "5"]) EXCEPT !.n = n, !.p = TRUE, !.pre = TRUE],
                [In(Fld("M", "string", t)) EXCEPT !.n = "E" \o n, !.e = TRUE], [In(Fld("M", "int8", t)) EXCEPT !.n = "E" \o n, !.e = TRUE, !.p = TRUE],
                [In([Fld("M", "string", t) EXCEPT !.pre = TRUE, !.d = "5"]) EXCEPT !.n = n, !.t = "-", !.p = TRUE]}
All1(n, t) == Shapes(n, t) \cup Idle(n, t) \cup Nests(n, t)
Texts == {"", "1", "300"}
PairLists(n) == UNION {[1..k -> {"a", "b"} \X Texts] : k \in 0..n}
InitFields == \E f \in All1("F", "a"), g \in All1("G", "a") \cup All1("G", "b") : fs = <<f, g>> /\ q = Q0 /\ via = "" /\ direct = FALSE
Fill == via = "" /\ via' = "form" /\ UNCHANGED <<fs, direct>> /\ \E l \in PairLists(Deep) : q' = [Q0 EXCEPT !.query = l]

Out(l)    == Bound(fs, [Q0 EXCEPT !.query = l], "form", FALSE)
Alone(f)  == Bound(<<f>>, q, via, direct)
Here      == Bound(fs, q, via, direct)
OkWidth(f, s) == CASE f.k = "int8" -> LeqD(IF HasPrefix(s, "-") THEN From(s, 2) ELSE s, "128") [] f.k = "uint8" -> ~HasPrefix(s, "-") /\ LeqD(s, "255") [] OTHER -> TRUE
RECURSIVE AllIn(_, _)
AllIn(f, v) == IF f.l THEN \A j \in 1..Len(v.l) : OkWidth(f, v.l[j].s)
                        ELSE IF v.nil THEN TRUE
                        ELSE IF IsStruct(f) THEN \A j \in 1..Len(f.sub) : AllIn(f.sub[j], v.f[j])
                        ELSE OkWidth(f, v.s)
FieldsMode == Mode = "fields" /\ via # ""
(* no value is stored that its field's type cannot hold *)
Width == FieldsMode => LET b == Here IN ~b.err => \A j \in 1..Len(fs) : AllIn(fs[j], b.v.f[j])
(* a field depends only on the values of its own name *)
Separate == FieldsMode => LET b == Here IN /\ b.err = (\E j \in 1..2 : Alone(fs[j]).err)
                                           /\ ~b.err => \A j \in 1..2 : b.v.f[j] = Alone(fs[j]).v.f[1]
Frame == FieldsMode => Out(Append(q.query, <<"zz", "300">>)) = Here /\ Out(<<<<"", "x">>>> \o q.query) = Here
OrderFree == FieldsMode /\ Len(q.query) = 2 /\ q.query[1][1] # q.query[2][1] => Out(<<q.query[2], q.query[1]>>) = Here
(* what is not to be written is not *)
Idles == FieldsMode => LET b == Here IN ~b.err => \A j \in 1..2 : (fs[j].t = "-" \/ ~fs[j].ex \/ (fs[j].t = "" /\ ~IsStruct(fs[j]))) => b.v.f[j] = Start(fs[j])
(* a value that is there is never the default, one that is not there never changes anything else *)
RECURSIVE Leaf(_, _)
Leaf(f, v) == IF IsStruct(f) THEN IF v.nil THEN "nil" ELSE Leaf(f.sub[1], v.f[1]) ELSE IF f.l THEN IF v.nil THEN "nil" ELSE Join([j \in 1..Len(v.l) |-> v.l[j].s], ",") ELSE IF v.nil THEN "nil" ELSE v.s
RECURSIVE Tip(_)
Tip(f) == IF IsStruct(f) THEN Tip(f.sub[1]) ELSE f
Plain(f) == Tip(f).k # "time" /\ f.t # "-" /\ Tip(f).t \notin {"", "-"} /\ Tip(f).ex
Expect(f) ==
  LET g == Named(q.query, Tip(f).t)
      z == IF Tip(f).k = "string" THEN "" ELSE IF Tip(f).k = "bool" THEN "false" ELSE "0"
      c(t) == IF t = "" THEN z ELSE IF Tip(f).k = "bool" THEN "true" ELSE t
  IN IF g # <<>> THEN IF Tip(f).l THEN Join([j \in 1..Len(g) |-> c(g[j])], ",") ELSE c(g[1])
     ELSE IF Tip(f).d # "" THEN Tip(f).d ELSE IF Tip(f).pre THEN Leaf(Tip(f), Start(Tip(f))) ELSE IF Tip(f).p \/ Tip(f).l THEN "nil" ELSE z
Exact == FieldsMode => LET b == Here IN ~b.err => \A j \in 1..2 : Plain(fs[j]) => Leaf(fs[j], b.v.f[j]) = Expect(fs[j])
FailsOnly == FieldsMode => LET Bad(f) == LET g == Named(q.query, Tip(f).t) IN
                                /\ Tip(f).k \in {"int8", "bool", "uint8"}
                                /\ CASE g = <<>> -> Tip(f).d = "300" [] Tip(f).l -> \E j \in 1..Len(g) : g[j] = "300" [] OTHER -> g[1] = "300"
                                /\ Tip(f).k # "uint8"
                           IN \A j \in 1..2 : /\ Plain(fs[j]) /\ Bad(fs[j]) => Here.err
                                              /\ Plain(fs[j]) /\ Tip(fs[j]).k # "uint8" /\ ~Bad(fs[j]) => ~Alone(fs[j]).err
(* every source of pairs binds alike *)
Alike == FieldsMode => LET l == q.query
                           b == Here
                       IN /\ Bound(fs, [Q0 EXCEPT !.query = l], "query", FALSE) = b
                          /\ Bound(fs, [Q0 EXCEPT !.uri = l], "uri", TRUE) = b
                          /\ Bound(fs, [Q0 EXCEPT !.hs = l], "header", FALSE) = b
                          /\ Bound(fs, [Q0 EXCEPT !.m = "POST", !.ct = "multipart/form-data", !.bk = "multi", !.parts = [j \in 1..Len(l) |-> Pt(l[j][1], l[j][2])]], "auto", FALSE) = b
                          /\ Bound(fs, [Q0 EXCEPT !.m = "PUT", !.ct = "application/x-www-form-urlencoded", !.bk = "url", !.body = l], "auto", FALSE) = b

(* ------------------------------------------------------------------ select *)
Obj == DObj(<<[n |-> "a", v |-> DStr("d")]>>)
InitSelect == \E m \in {"GET", "HEAD", "POST", "PUT", "PATCH", "DELETE", "OPTIONS"},
                 ct \in {"", "text/plain", "application/json", "application/json; x=y", "application/xml", "text/xml", "multipart/form-data", "application/x-www-form-urlencoded", "application/jsonp"},
                 bk \in {"none", "url", "json", "xml", "multi", "garb"}, cut \in BOOLEAN, badq \in BOOLEAN, w \in {"auto", "form", "formpost", "multipart", "query", "header", "json", "xml"}, d \in BOOLEAN :
   /\ fs = <<Fld("F", "string", "a")>>
   /\ cut => bk \in {"multi", "json", "xml"}
   /\ Lower(C!Cut(ct)) = "application/x-www-form-urlencoded" => bk \in {"none", "url", "garb"}
   /\ bk = "multi" => ct = "multipart/form-data" /\ w \notin {"json", "xml"}
   /\ ~(bk = "json" /\ (w = "xml" \/ (w = "auto" /\ ct \in {"application/xml", "text/xml"})))
   /\ q = [Q0 EXCEPT !.m = m, !.ct = ct, !.bk = bk, !.cut = cut, !.badq = badq, !.query = <<<<"a", "q">>>>, !.body = IF bk = "url" THEN <<<<"a", "b">>>> ELSE <<>>,
                     !.parts = IF bk = "multi" THEN <<Pt("a", "p")>> ELSE <<>>, !.doc = IF bk \in {"json", "xml"} THEN Obj ELSE NoDoc, !.hs = <<<<"A", "h">>>>]
   /\ via = w /\ direct = d
Got == IF Here.err THEN "error" ELSE Here.v.f[1].s
SelectMode == Mode = "select"
Posted == q.m \in {"POST", "PUT", "PATCH"}
Whole2(k, x) == IF q.bk = k /\ ~q.cut THEN x ELSE "error"
OfForm == CASE Posted /\ q.ct = "application/x-www-form-urlencoded" -> IF q.badq \/ q.bk = "garb" THEN "error" ELSE IF q.bk = "url" THEN "b" ELSE "q"
            [] Posted /\ q.ct = "multipart/form-data" /\ ~direct -> IF q.badq THEN "error" ELSE Whole2("multi", "q")
            [] OTHER -> IF q.badq THEN "error" ELSE "q"
OfMulti == IF q.ct = "multipart/form-data" /\ ~q.badq THEN Whole2("multi", "p") ELSE "error"
Chart == SelectMode =>
   Got = (CASE via = "query" -> "q" [] via = "header" -> "h" [] via = "json" -> Whole2("json", "d") [] via = "xml" -> Whole2("xml", "d")
            [] via \in {"form", "formpost"} -> OfForm [] via = "multipart" -> OfMulti
            [] OTHER -> CASE q.m = "GET" -> OfForm
                          [] Posted /\ q.ct = "multipart/form-data" -> OfMulti
                          [] q.m # "GET" /\ q.ct \in {"application/json", "application/json; x=y"} -> Whole2("json", "d")
                          [] q.m # "GET" /\ q.ct \in {"application/xml", "text/xml"} -> Whole2("xml", "d")
                          [] OTHER -> OfForm)
(* only the chosen part counts *)
Swap == [q EXCEPT !.query = IF Chosen(q, via) \in {"form", "formpost", "query"} THEN @ ELSE <<>>, !.hs = IF Chosen(q, via) = "header" THEN @ ELSE <<>>]
OnlyChosen == SelectMode => Bound(fs, Swap, via, direct) = Here

(* ------------------------------------------------------------------- rules *)
Rl(r, p) == [r |-> r, p |-> p]
NumRules == {Rl("required", ""), Rl("omitempty", ""), Rl("min", "2"), Rl("max", "5"), Rl("gt", "2"), Rl("lt", "5"), Rl("len", "2"), Rl("eq", "2"), Rl("ne", "2"), Rl("oneof", "2 5")}
StrRules == {Rl("required", ""), Rl("omitempty", ""), Rl("min", "2"), Rl("max", "2"), Rl("gt", "1"), Rl("lt", "2"), Rl("len", "2"), Rl("eq", "ab"), Rl("ne", "ab"), Rl("oneof", "ab x")}
Upto2(R2) == {<<>>} \cup {<<x>> : x \in R2} \cup {<<x, y>> : x \in R2, y \in R2 \ {Rl("omitempty", "")}}
NumVals == {"0", "2", "3", "5", "6"}
StrVals == {"", "x", "ab", "abc"}
InitRules ==
  \/ \E p \in BOOLEAN, r \in Upto2(NumRules), s \in NumVals \cup {"absent"} :
        /\ fs = <<[Fld("F", "int8", "a") EXCEPT !.p = p, !.r = r]>>
        /\ q = [Q0 EXCEPT !.query = IF s = "absent" THEN <<>> ELSE <<<<"a", s>>>>] /\ via = "query" /\ direct = FALSE
  \/ \E p \in BOOLEAN, r \in Upto2(StrRules), s \in StrVals \cup {"absent"} :
        /\ fs = <<[Fld("F", "string", "a") EXCEPT !.p = p, !.r = r]>>
        /\ q = [Q0 EXCEPT !.query = IF s = "absent" THEN <<>> ELSE <<<<"a", s>>>>] /\ via = "query" /\ direct = FALSE
  \/ \E r \in {Rl("required", ""), Rl("omitempty", ""), Rl("min", "1"), Rl("max", "1"), Rl("len", "2")}, in \in {Rl("required", ""), Rl("min", "2"), Rl("ne", "2")},
        l \in UNION {[1..n -> {"0", "2", "5"}] : n \in 0..2} :
        /\ fs = <<[Fld("F", "int8", "a") EXCEPT !.l = TRUE, !.r = <<r, Rl("dive", ""), in>>]>>
        /\ q = [Q0 EXCEPT !.query = [j \in 1..Len(l) |-> <<"a", l[j]>>]] /\ via = "query" /\ direct = FALSE
RulesMode == Mode = "rules"
F1 == fs[1]
Given == Named(q.query, "a")
Nat1(s) == CASE s = "0" -> 0 [] s = "1" -> 1 [] s = "2" -> 2 [] s = "3" -> 3 [] s = "5" -> 5 [] s = "6" -> 6
(* a rule on a value that is there, by integers *)
Sat(k, s, r) == LET n == IF k = "string" THEN Len(s) ELSE Nat1(s) IN
   CASE r.r = "required" -> F1.p \/ (IF k = "string" THEN s # "" ELSE n # 0)
     [] r.r = "min" -> n >= Nat1(r.p) [] r.r = "max" -> n <= Nat1(r.p) [] r.r = "gt" -> n > Nat1(r.p) [] r.r = "lt" -> n < Nat1(r.p) [] r.r = "len" -> n = Nat1(r.p)
     [] r.r = "eq" -> s = r.p [] r.r = "ne" -> s # r.p [] r.r = "oneof" -> s \in {"2", "5"} \cup {"ab", "x"}
Cuts(s) == \E j \in 1..Len(F1.r) : F1.r[j].r = "omitempty" /\ ~F1.p /\ (IF F1.k = "string" THEN s = "" ELSE s = "0") /\ \A i \in 1..(j - 1) : Sat(F1.k, s, F1.r[i])
Fine == IF F1.l THEN LET n == Len(Given)
                         there == n > 0
                         r == F1.r[1]
                     IN IF r.r = "omitempty" /\ ~there THEN TRUE
                        ELSE /\ CASE r.r = "required" -> there [] r.r = "min" -> n >= 1 [] r.r = "max" -> n <= 1 [] r.r = "len" -> n = 2 [] OTHER -> TRUE
                             /\ \A j \in 1..n : Sat("int8", Given[j], F1.r[3])
        ELSE IF Given = <<>> /\ F1.p THEN F1.r = <<>> \/ F1.r[1].r = "omitempty"
        ELSE LET s == IF Given = <<>> THEN ZeroText(F1.k) ELSE Given[1] IN
             Cuts(s) \/ \A j \in 1..Len(F1.r) : F1.r[j].r = "omitempty" \/ Sat(F1.k, s, F1.r[j])
Verdict == RulesMode => Here.err = ~Fine
(* the verdict is the same from every source, and inside other objects *)
JVal(s) == IF F1.k = "string" THEN DStr(s) ELSE DNum(s)
JDoc == IF Given = <<>> THEN DObj(<<>>) ELSE DObj(<<[n |-> "a", v |-> IF F1.l THEN DArr([j \in 1..Len(Given) |-> JVal(Given[j])]) ELSE JVal(Given[1])]>>)
ByJson(gs, d) == Bound(gs, [Q0 EXCEPT !.m = "POST", !.ct = "application/json", !.bk = "json", !.doc = d], "auto", FALSE)
ByXml(gs, d)  == Bound(gs, [Q0 EXCEPT !.m = "POST", !.ct = "application/xml", !.bk = "xml", !.doc = d], "auto", FALSE)
SameVerdict == RulesMode => /\ ByJson(fs, JDoc).err = Here.err /\ ByXml(fs, JDoc).err = Here.err
                            /\ (~Here.err => ByJson(fs, JDoc).v = Here.v /\ ByXml(fs, JDoc).v = Here.v)
Box(p, e, n) == [In(F1) EXCEPT !.n = n, !.p = p, !.e = e, !.pre = p]
Inside == RulesMode => /\ Bound(<<Box(FALSE, FALSE, "N")>>, q, via, direct).err = Here.err
                       /\ Bound(<<Box(TRUE, FALSE, "N")>>, q, via, direct).err = Here.err
                       /\ Bound(<<Box(FALSE, TRUE, "EN")>>, q, via, direct).err = Here.err
JSONList(fs2, ds) == BoundList(fs2, FALSE, 0, [Q0 EXCEPT !.m = "POST", !.ct = "application/json", !.bk = "json", !.doc = DArr(ds)], "auto")
EachElement == RulesMode => /\ JSONList(fs, <<JDoc>>).err = Here.err
                            /\ JSONList(fs, <<JDoc, DObj(<<>>)>>).err = (Here.err \/ ByJson(fs, DObj(<<>>)).err)
                            /\ ~JSONList(fs, <<>>).err
                            /\ BoundList(fs, TRUE, 0, [Q0 EXCEPT !.m = "POST", !.ct = "application/json", !.bk = "json", !.doc = DArr(<<JDoc, NoDoc>>)], "auto").err

(* ------------------------------------------------------------------- files *)
PartSet == {Pt("a", "1"), Pt("b", "1"), Fl("a", "f"), Fl("a", "gg"), Fl("b", "f"), Fl("a", "")}
FileFields(n, t) == {[Fld(n, "file", t) EXCEPT !.p = TRUE], [Fld(n, "file", t) EXCEPT !.l = TRUE], Fld(n, "string", t), [Fld(n, "string", t) EXCEPT !.l = TRUE, !.pre = TRUE],
                     [Fld(n, "int8", t) EXCEPT !.d = "5"], [In([Fld("M", "file", t) EXCEPT !.p = TRUE]) EXCEPT !.n = n, !.p = TRUE]}
InitFiles == \E f \in FileFields("F", "a"), g \in FileFields("G", "a") \cup FileFields("G", "b"), n \in 0..Deep :
             \E l \in [1..n -> PartSet] :
               /\ fs = <<f, g>> /\ via \in {"auto", "multipart"} /\ direct = FALSE
               /\ q = [Q0 EXCEPT !.m = "POST", !.ct = "multipart/form-data", !.bk = "multi", !.parts = l]
FilesMode == Mode = "files"
Fs(n)  == SelectSeq(q.parts, LAMBDA x : x.n = n /\ x.file /\ x.fname # "")
Ts(n)  == SelectSeq(q.parts, LAMBDA x : x.n = n /\ ~(x.file /\ x.fname # ""))
FT(x)  == x.fname \o "|" \o ToString(x.z) \o "|" \o x.s
Arrive == FilesMode => LET b == Here IN ~b.err => \A j \in 1..2 : LET g == Tip(fs[j]) IN
   g.k = "file" => Leaf(fs[j], b.v.f[j]) = (IF Fs(g.t) = <<>> THEN "nil" ELSE IF g.l THEN Join([i \in 1..Len(Fs(g.t)) |-> FT(Fs(g.t)[i])], ",") ELSE FT(Fs(g.t)[1]))
(* text fields see text only; a file alone for one is refused *)
TextOnly == FilesMode => LET b == Here IN ~b.err => \A j \in 1..2 : Tip(fs[j]).k = "string" /\ ~Tip(fs[j]).l => Leaf(fs[j], b.v.f[j]) = (IF Ts(fs[j].t) = <<>> THEN "" ELSE Ts(fs[j].t)[1].s)
Refused == FilesMode => ((\E j \in 1..2 : Tip(fs[j]).k # "file" /\ Tip(fs[j]).d = "" /\ Fs(fs[j].t) # <<>> /\ Ts(fs[j].t) = <<>>) => Here.err)
FileErr == FilesMode => (Here.err => \E j \in 1..2 : Tip(fs[j]).k # "file" /\ Fs(fs[j].t) # <<>> /\ Ts(fs[j].t) = <<>>)

(* --------------------------------------------------------------------- gin *)
Tagged(n, t) == {Fld(n, "string", t), [Fld(n, "int8", t) EXCEPT !.d = "5"], [Fld(n, "int8", t) EXCEPT !.p = TRUE], [Fld(n, "int8", t) EXCEPT !.l = TRUE, !.pre = TRUE],
                 [Fld(n, "bool", t) EXCEPT !.pre = TRUE]}
Gins(n, t) == Tagged(n, t) \cup Tagged(n, "") \cup
   {[Fld(n, "int8", t) EXCEPT !.l = TRUE, !.a = 2], [Fld(n, "int8", t) EXCEPT !.l = TRUE, !.a = 1, !.d = "7"], [Fld(n, "int8", "-") EXCEPT !.pre = TRUE], Fld(n, "dur", t)} \cup
   {[Fld(IF e THEN "E" \o n ELSE n, "struct", "") EXCEPT !.sub = <<g>>, !.p = TRUE, !.e = e, !.pre = pre] : g \in {Fld("M", "int8", t), Fld("M", "int8", ""), [Fld("M", "int8", t) EXCEPT !.d = "5"]}, e \in BOOLEAN, pre \in BOOLEAN} \cup
   {[Fld(n, "struct", "") EXCEPT !.sub = <<[Fld("K", "struct", "") EXCEPT !.sub = <<Fld("M", "int8", t)>>, !.p = TRUE]>>, !.p = TRUE]}
ObjText == [s |-> "{}", d |-> DObj(<<>>)]
InitGin == \E f \in Gins("F", "a"), g \in {Fld("G", "string", "a"), Fld("G", "int8", "b")} : fs = <<f, g>> /\ q = Q0 /\ via = "" /\ direct = TRUE
FillGin == via = "" /\ via' = "2query" /\ UNCHANGED <<fs, direct>> /\
           \E l \in UNION {[1..k -> {"a", "F", "M"} \X {"", "1", "300", "1s", "{}"}] : k \in 0..Deep} : q' = [Q0 EXCEPT !.query = l, !.jt = <<ObjText>>]
GinMode == Mode = "gin" /\ via # ""
G(ts, l) == Bound(ts, [q EXCEPT !.query = l], "2query", TRUE)
(* tagged fields without structure are bound as Bind binds them *)
GinAgree == GinMode /\ fs[1] \in Tagged("F", "a") => Here = Bound(fs, q, "query", FALSE)
(* an untagged one goes by its own name *)
Renamed(l) == [j \in 1..Len(l) |-> IF l[j][1] = "F" THEN <<"a2", l[j][2]>> ELSE l[j]]
GinName == GinMode /\ fs[1] \in Tagged("F", "") => Here = G(<<[fs[1] EXCEPT !.t = "a2"], fs[2]>>, Renamed(q.query))
(* a nil pointer stays nil unless something within is given *)
RECURSIVE Mentions(_, _)
Mentions(f, l) == LET n == IF f.t = "" THEN f.n ELSE f.t IN
   f.d # "" \/ (~(f.e /\ IsStruct(f)) /\ Named(l, n) # <<>>) \/ (IsStruct(f) /\ \E j \in 1..Len(f.sub) : Mentions(f.sub[j], l))
GinLazy == GinMode /\ fs[1].p /\ ~Here.err => Here.v.f[1].nil = (~Mentions(fs[1], q.query) /\ ~fs[1].pre)
GinInner == GinMode /\ IsStruct(fs[1]) /\ ~Here.err /\ ~Here.v.f[1].nil /\ fs[1].sub[1].p =>
            Here.v.f[1].f[1].nil = (Named(q.query, "F") # <<>> \/ ~Mentions(fs[1].sub[1], q.query))
(* an array takes all or nothing *)
GinArray == GinMode /\ fs[1].a > 0 => LET k == Len(Named(q.query, "a")) IN
            /\ (k > 0 /\ k # fs[1].a) => Here.err
            /\ (~Here.err /\ k = 0) => Here.v.f[1].l = (IF fs[1].d = "" THEN <<Text("0"), Text("0")>> ELSE <<Text("7")>>)
GinNever == GinMode /\ fs[1].t = "-" /\ ~Here.err => Here.v.f[1] = Start(fs[1])
GinDur == GinMode /\ fs[1].k = "dur" /\ Named(q.query, "a") # <<>> => (Named(q.query, "a")[1] \notin {"1s"} => Here.err)
GinSeparate == GinMode => /\ Here.err = (G(<<fs[1]>>, q.query).err \/ G(<<fs[2]>>, q.query).err)
                          /\ ~Here.err => Here.v.f[1] = G(<<fs[1]>>, q.query).v.f[1] /\ Here.v.f[2] = G(<<fs[2]>>, q.query).v.f[1]
                          /\ G(fs, Append(q.query, <<"zz", "300">>)) = Here
(* a file field never takes text, with Bind2 neither *)
GinFiles == FilesMode => LET b == Bound(fs, q, "2multipart", TRUE) IN
            /\ ~b.err => \A j \in 1..2 : LET g == Tip(fs[j]) IN g.k = "file" =>
                 Leaf(fs[j], b.v.f[j]) = (IF Fs(g.t) = <<>> THEN "nil" ELSE IF g.l THEN Join([i \in 1..Len(Fs(g.t)) |-> FT(Fs(g.t)[i])], ",") ELSE FT(Fs(g.t)[1]))
            /\ (\E j \in 1..2 : Tip(fs[j]).k # "file" /\ Fs(fs[j].t) # <<>>) => b.err

Init == CASE Mode = "gin" -> InitGin [] Mode = "fields" -> InitFields [] Mode = "select" -> InitSelect [] Mode = "rules" -> InitRules [] Mode = "files" -> InitFiles
Next == IF Mode = "gin" THEN FillGin ELSE Fill
Spec == Init /\ [][Next]_vars
MCNames == IF q.bk = "multi" /\ ~q.badq /\ ~q.cut /\ q.m \in {"POST", "PUT", "PATCH"} /\ via \in {"auto", "multipart"} THEN <<"a", "b">> ELSE <<>>
EmitAs(f, r, w, top, mem) == PrintT("SCEN " \o ToJson([id |-> "mc", fs |-> f, q |-> r, via |-> w, direct |-> direct, top |-> top, an |-> 0, twice |-> FALSE, names |-> MCNames, mem |-> mem, enc |-> Len(r.query)]))
Emit == via # "" =>
        /\ EmitAs(fs, q, via, "struct", 1)
        /\ FilesMode => PrintT("SCEN " \o ToJson([id |-> "mc", fs |-> fs, q |-> q, via |-> "2multipart", direct |-> TRUE, top |-> "struct", an |-> 0, twice |-> FALSE, names |-> MCNames, mem |-> 1, enc |-> Len(q.parts)]))
        /\ RulesMode => /\ EmitAs(fs, [Q0 EXCEPT !.m = "POST", !.ct = "application/json", !.bk = "json", !.doc = DArr(<<JDoc, DObj(<<>>)>>)], "auto", "list", 1)
                        /\ EmitAs(<<Box(FALSE, TRUE, "EN"), [Box(TRUE, FALSE, "N") EXCEPT !.l = TRUE, !.pre = FALSE, !.t = "n", !.r = <<Rl("dive", "")>>]>>,
                                  [Q0 EXCEPT !.m = "PUT", !.ct = "application/json", !.bk = "json", !.doc = DObj(JDoc.o \o <<[n |-> "n", v |-> DArr(<<JDoc>>)]>>)], "auto", "struct", 1)
================================================================================
