----------------------------------- MODULE Bind ---------------------------------
(* Binding a request to an object (B01-B04).                                       *)
(*                                                                                *)
(* A type is a sequence of fields                                                 *)
(*   [n: Go name, k: kind, p: pointer, l: list, e: embedded, ex: exported,         *)
(*    t: name in the tag ("" none, "-" never), d: default, r: rules, pre: preset,  *)
(*    tf/tz: time format and zone, sub: fields of a struct,                        *)
(*    a: length of an array (0: a list has any)]                                   *)
(* and a value [nil, s: text of a scalar, l: elements, f: fields].                 *)
(* A request is [m, ct, query, badq, bk: kind of body, body: pairs or parts,        *)
(* doc: document, cut: the body is cut short, hs, uri, jt: JSON texts [s, d]       *)
(* that occur as values, and what they say].                                       *)
EXTENDS Form
C == INSTANCE Client

V(nil, s, l, f) == [nil |-> nil, s |-> s, l |-> l, f |-> f]
Res(err, v)     == [err |-> err, v |-> v]
NilV == V(TRUE, "", <<>>, <<>>)
Text(s) == V(FALSE, s, <<>>, <<>>)
ZeroText(k) == CASE k = "string" -> "" [] k = "bool" -> "false" [] k = "time" -> "zero" [] k = "any" -> "nil" [] OTHER -> "0"
PreText(f)  == CASE f.k = "string" -> "pre" [] f.k = "bool" -> "true" [] f.k = "any" -> "nil"
                 [] f.k = "time" -> IF f.tf \in {"unix", "unixnano"} THEN "unix:936868149.0" ELSE "1999-09-09T09:09:09Z"
                 [] OTHER -> "7"
IsStruct(f) == f.k = "struct"
(* a map: nil, or l has a slot for each of these keys (the only ones used), nil where it has no such key *)
IsMap(f)    == f.k \in {"maps", "mapi"}
MapKeys     == <<"a", "b", "B", "k">>
ElemKind(f) == IF f.k = "maps" THEN "string" ELSE "int"
Held(v)    == Cardinality({j \in 1..Len(v.l) : ~v.l[j].nil})
Base(k) == IF k = "dur" THEN "int64" ELSE k

RECURSIVE Zero(_)
Bare(f) == IF IsMap(f) THEN NilV ELSE IF IsStruct(f) THEN V(FALSE, "", <<>>, [j \in 1..Len(f.sub) |-> Zero(f.sub[j])]) ELSE Text(ZeroText(f.k))
Zero(f) == IF f.a > 0 THEN V(FALSE, "", [j \in 1..f.a |-> IF f.p \/ f.k = "file" THEN NilV ELSE Bare(f)], <<>>)
           ELSE IF f.p \/ f.l THEN NilV ELSE Bare(f)
RECURSIVE Start(_)
PreBare(f) == IF IsMap(f) THEN V(FALSE, "", [j \in 1..Len(MapKeys) |-> IF j = 1 THEN Text(IF f.k = "maps" THEN "pre" ELSE "7") ELSE NilV], <<>>)
              ELSE IF IsStruct(f) THEN V(FALSE, "", <<>>, [j \in 1..Len(f.sub) |-> Start(f.sub[j])]) ELSE Text(PreText(f))
Start(f) == IF f.a > 0 THEN Zero(f)
            ELSE IF (f.p \/ f.l) /\ ~f.pre THEN NilV
            ELSE IF f.l THEN V(FALSE, "", <<PreBare(f)>>, <<>>)
            ELSE IF f.pre \/ IsStruct(f) THEN PreBare(f) ELSE Bare(f)

(* ------------------------------------------------------------------- texts *)
(* texts that are times in RFC 3339, and the instants they denote *)
Rfc == [x \in {} |-> ""] @@ ("2021-03-04T05:06:07Z" :> "2021-03-04T05:06:07Z") @@ ("2021-03-04T05:06:07+02:00" :> "2021-03-04T03:06:07Z")
       @@ ("2024-02-29T23:59:59.5Z" :> "2024-02-29T23:59:59.5Z") @@ ("1969-12-31T23:59:59Z" :> "1969-12-31T23:59:59Z")
Dates == {"2021-03-04", "2024-02-29", "1970-01-01", "9999-12-31"}      \* other texts used are no dates
TimeOf(f, s) ==
  CASE s = "" -> R("ok", "zero")
    [] f.tf \in {"unix", "unixnano"} ->
         LET q == ParseInt(s, 64)
             n == Len(q.v)
         IN IF q.st # "ok" THEN q
            ELSE R("ok", IF f.tf = "unix" THEN "unix:" \o q.v \o ".0"
                         ELSE IF n <= 9 THEN "unix:0." \o q.v
                         ELSE "unix:" \o SubSeq(q.v, 1, n - 9) \o "." \o NoZeros(SubSeq(q.v, n - 8, n)))
    [] f.tf = "" -> IF f.tz = "bad" THEN R("bad", "") ELSE IF s \in DOMAIN Rfc THEN R("ok", Rfc[s]) ELSE R("bad", "")
    [] f.tf = "date" -> IF f.tz = "bad" \/ s \notin Dates THEN R("bad", "")
                        ELSE R("ok", s \o (IF f.tz = "" THEN "T01:00:00Z" ELSE "T00:00:00Z"))   \* the local zone is UTC-1
(* what a text given for a field of this kind means; an empty one is zero *)
Convert(f, s) == CASE f.k = "time" -> TimeOf(f, s)
                   [] f.k = "any" -> R("bad", "")
                   [] OTHER -> IF s = "" THEN R("ok", ZeroText(f.k)) ELSE Parse(Base(f.k), s)
(* durations as Bind2 reads them, in nanoseconds; Bind reads a number of them *)
Durations == [x \in {} |-> ""] @@ ("1s" :> "1000000000") @@ ("1h30m" :> "5400000000000") @@ ("-1.5ms" :> "-1500000") @@ ("0" :> "0") @@ ("7ns" :> "7") @@ ("2us" :> "2000")
Convert2(f, s) == IF f.k = "dur" THEN IF s \in DOMAIN Durations THEN R("ok", Durations[s]) ELSE R("bad", "") ELSE Convert(f, s)

Canon(s)   == HeaderName(s)

(* --------------------------------------------------------------- documents *)
(* a document value: [t: str num bool null obj arr, s: text, o: members [n, v], a: elements] *)
Members(o, n) == SelectSeq(o, LAMBDA x : x.n = n)
DocName(f)    == IF f.t = "" THEN f.n ELSE f.t
Inline(f)     == f.e /\ f.t = "" /\ IsStruct(f)
RECURSIVE Hit(_, _)
Hit(f, o) == \E j \in 1..Len(f.sub) : LET g == f.sub[j] IN
                g.ex /\ g.t # "-" /\ (IF Inline(g) THEN Hit(g, o) ELSE Members(o, DocName(g)) # <<>>)
RECURSIVE JsonBare(_, _, _), JsonObj(_, _, _), XmlBare(_, _, _), XmlObj(_, _, _)
Fold(rs) == Res(\E j \in 1..Len(rs) : rs[j].err, V(FALSE, "", <<>>, [j \in 1..Len(rs) |-> rs[j].v]))

JsonField(f, v, d) ==
  IF d.t = "null" THEN Res(FALSE, IF f.a = 0 /\ (f.p \/ f.l \/ IsMap(f)) THEN NilV ELSE v)
  ELSE IF f.a > 0 THEN      \* an array: what it cannot hold is not read, what is missing stays
     IF d.t # "arr" THEN Res(TRUE, v)
     ELSE LET n  == IF Len(d.a) < f.a THEN Len(d.a) ELSE f.a
              es == [j \in 1..f.a |-> IF j > n THEN Res(FALSE, v.l[j])
                                      ELSE IF d.a[j].t = "null" THEN Res(FALSE, IF f.p THEN NilV ELSE v.l[j]) ELSE JsonBare(f, IF v.l[j].nil THEN Bare(f) ELSE v.l[j], d.a[j])]
          IN Res(\E j \in 1..f.a : es[j].err, V(FALSE, "", [j \in 1..f.a |-> es[j].v], <<>>))
  ELSE IF f.l THEN
     IF d.t # "arr" THEN Res(TRUE, v)
     ELSE LET es == [j \in 1..Len(d.a) |-> IF d.a[j].t = "null" THEN Res(FALSE, IF f.p THEN NilV ELSE Bare(f)) ELSE JsonBare(f, Bare(f), d.a[j])]
          IN Res(\E j \in 1..Len(es) : es[j].err, V(FALSE, "", [j \in 1..Len(es) |-> es[j].v], <<>>))
  ELSE JsonBare(f, IF v.nil THEN Bare(f) ELSE v, d)
(* the members of a map are added to what it has *)
JsonMap(f, b, d) ==
  IF d.t # "obj" THEN Res(TRUE, b)
  ELSE LET k == ElemKind(f)
           Is(x) == CASE x.t = "null" -> Text(ZeroText(k)) [] k = "string" -> Text(x.s) [] OTHER -> Text(Parse(k, x.s).v)
           Slot(j) == LET m == Members(d.o, MapKeys[j]) IN IF m # <<>> THEN Is(m[Len(m)].v) ELSE IF b.nil THEN NilV ELSE b.l[j]
           Wrong(x) == IF k = "string" THEN x.t \notin {"str", "null"} ELSE x.t # "null" /\ (x.t # "num" \/ Parse(k, x.s).st # "ok")
       IN IF \E j \in 1..Len(d.o) : Wrong(d.o[j].v) THEN Res(TRUE, b)
          ELSE Res(FALSE, V(FALSE, "", [j \in 1..Len(MapKeys) |-> Slot(j)], <<>>))
JsonBare(f, b, d) ==
  CASE IsMap(f)       -> JsonMap(f, b, d)
    [] IsStruct(f)    -> IF d.t = "obj" THEN JsonObj(f.sub, b.f, d.o) ELSE Res(TRUE, b)
    [] f.k = "string" -> Res(d.t # "str", Text(d.s))
    [] f.k = "bool"   -> Res(d.t # "bool", Text(d.s))
    [] f.k = "time"   -> Res(d.t # "str" \/ d.s \notin DOMAIN Rfc, Text(IF d.s \in DOMAIN Rfc THEN Rfc[d.s] ELSE ""))
    [] OTHER          -> Res(d.t # "num" \/ Parse(Base(f.k), d.s).st # "ok", Text(Parse(Base(f.k), d.s).v))
JsonObj(fs, vs, o) ==
  Fold([j \in 1..Len(fs) |->
    LET f == fs[j]
        m == Members(o, DocName(f))
    IN CASE ~f.ex \/ f.t = "-" -> Res(FALSE, vs[j])
         [] Inline(f) -> IF vs[j].nil /\ ~Hit(f, o) THEN Res(FALSE, vs[j]) ELSE JsonObj(f.sub, IF vs[j].nil THEN Bare(f).f ELSE vs[j].f, o)
         [] OTHER -> IF m = <<>> THEN Res(FALSE, vs[j]) ELSE JsonField(f, vs[j], m[Len(m)].v)])

XmlBare(f, b, d) ==
  CASE IsStruct(f)    -> IF d.t = "obj" THEN XmlObj(f.sub, b.f, d.o) ELSE Res(FALSE, b)
    [] f.k = "string" -> Res(FALSE, Text(d.s))
    [] f.k = "time"   -> Res(d.s \notin DOMAIN Rfc, Text(IF d.s \in DOMAIN Rfc THEN Rfc[d.s] ELSE ""))
    [] OTHER          -> IF d.s = "" THEN Res(FALSE, Text(ZeroText(f.k)))
                         ELSE LET c == Parse(Base(f.k), TrimSpace(d.s)) IN Res(c.st # "ok", Text(c.v))
XmlObj(fs, vs, o) ==
  Fold([j \in 1..Len(fs) |->
    LET f  == fs[j]
        m  == Members(o, DocName(f))
        ds == Flat([x \in 1..Len(m) |-> IF m[x].v.t = "arr" THEN m[x].v.a ELSE <<m[x].v>>])
        es == [x \in 1..Len(ds) |-> XmlBare(f, Bare(f), ds[x])]
    IN CASE ~f.ex \/ f.t = "-" -> Res(FALSE, vs[j])
         [] Inline(f) -> IF vs[j].nil /\ ~Hit(f, o) THEN Res(FALSE, vs[j]) ELSE XmlObj(f.sub, IF vs[j].nil THEN Bare(f).f ELSE vs[j].f, o)
         [] OTHER -> IF ds = <<>> THEN Res(FALSE, vs[j])
                     ELSE IF f.l THEN Res(\E x \in 1..Len(es) : es[x].err, V(FALSE, "", vs[j].l \o [x \in 1..Len(es) |-> es[x].v], <<>>))
                     ELSE XmlBare(f, IF vs[j].nil THEN Bare(f) ELSE vs[j], ds[Len(ds)])])

(* --------------------------------------------------------------- form-like *)
(* M = [vals: <<name, text>> pairs, files: [n, fname, z, s] records, hdr, jt] *)
FileText(x) == x.fname \o "|" \o ToString(x.z) \o "|" \o x.s
(* a JSON text given for a struct whose fields are vs *)
OfText(f, vs, s, M) ==
  LET t == SelectSeq(M.jt, LAMBDA x : x.s = s) IN
  IF t = <<>> THEN Res(s \notin {"{}", "null"}, V(FALSE, "", <<>>, vs))
  ELSE IF t[1].d.t = "obj" THEN JsonObj(f.sub, vs, t[1].d.o) ELSE Res(TRUE, V(FALSE, "", <<>>, vs))
(* one given for a map *)
MapOfText(f, b, s, M) ==
  LET t == SelectSeq(M.jt, LAMBDA x : x.s = s) IN
  CASE t # <<>> -> JsonField([f EXCEPT !.l = FALSE, !.a = 0], b, t[1].d)
    [] t = <<>> /\ s = "null" -> Res(FALSE, NilV)
    [] t = <<>> /\ s = "{}"   -> JsonMap(f, b, [t |-> "obj", o |-> <<>>])
    [] OTHER -> Res(TRUE, b)
(* the elements of a list of texts: errors and values *)
Elems(f, texts, M, conv(_, _)) ==
  LET es == [j \in 1..Len(texts) |-> IF IsStruct(f) THEN OfText(f, Bare(f).f, texts[j], M)
                                     ELSE IF IsMap(f) THEN MapOfText(f, NilV, texts[j], M)
                                     ELSE LET c == conv(f, texts[j]) IN Res(c.st # "ok", Text(c.v))]
  IN Res(\E j \in 1..Len(es) : es[j].err, V(FALSE, "", [j \in 1..Len(es) |-> es[j].v], <<>>))
RECURSIVE ByForm(_, _, _)
ByForm(f, v, M) ==
  LET name  == IF M.hdr THEN Canon(f.t) ELSE f.t
      given == IF f.t \in {"", "-"} THEN <<>> ELSE Named(M.vals, name)
      texts == IF given # <<>> THEN given ELSE IF f.d # "" /\ f.t # "" THEN <<f.d>> ELSE <<>>
      files == SelectSeq(M.files, LAMBDA x : f.t # "" /\ x.n = name)
  IN CASE ~f.ex \/ f.t = "-" -> Res(FALSE, v)
       [] f.k = "file" ->
            IF f.a > 0 THEN Res(files # <<>> \/ texts # <<>>, v)
            ELSE IF files = <<>> THEN Res(FALSE, v)
            ELSE Res(FALSE, IF f.l THEN V(FALSE, "", [j \in 1..Len(files) |-> Text(FileText(files[j]))], <<>>) ELSE Text(FileText(files[1])))
       [] IsStruct(f) /\ ~f.l ->
            LET base == IF v.nil THEN Bare(f) ELSE v
                in   == [j \in 1..Len(f.sub) |-> ByForm(f.sub[j], base.f[j], M)]
                vs   == [j \in 1..Len(in) |-> in[j].v]
                own  == IF texts = <<>> THEN Res(FALSE, V(FALSE, "", <<>>, vs)) ELSE OfText(f, vs, texts[1], M)
            IN Res((\E j \in 1..Len(in) : in[j].err) \/ own.err \/ (texts = <<>> /\ files # <<>>), [base EXCEPT !.f = own.v.f])
       [] texts = <<>> -> Res(files # <<>>, v)
       [] f.a > 0 -> Res(TRUE, v)
       [] f.l -> Elems(f, texts, M, Convert)
       [] IsMap(f) -> MapOfText(f, v, texts[1], M)
       [] OTHER -> LET c == Convert(f, texts[1]) IN Res(c.st # "ok", Text(c.v))

(* the binders that follow gin (Bind2): [err, v, set] *)
Set3(r, set) == [err |-> r.err, v |-> r.v, set |-> set]
RECURSIVE ByForm2(_, _, _)
ByForm2(f, v, M) ==
  LET nm    == IF f.t = "" THEN f.n ELSE f.t
      name  == IF M.hdr THEN Canon(nm) ELSE nm
      given == Named(M.vals, name)
      texts == IF given # <<>> THEN given ELSE IF f.d # "" THEN <<f.d>> ELSE <<>>
      files == SelectSeq(M.files, LAMBDA x : x.n = name)
      none  == Set3(Res(FALSE, v), FALSE)
      fail  == Set3(Res(TRUE, v), FALSE)
  IN CASE ~f.ex \/ f.t = "-" \/ (f.e /\ f.k \in {"time", "file"}) -> none      \* embedded: only what has fields of its own
       [] f.k = "file" ->
            IF files = <<>> THEN (IF f.l /\ texts # <<>> THEN fail ELSE none)
            ELSE IF f.a > 0 /\ f.a # Len(files) THEN fail
            ELSE Set3(Res(FALSE, IF f.l THEN V(FALSE, "", [j \in 1..Len(files) |-> Text(FileText(files[j]))], <<>>) ELSE Text(FileText(files[1]))), TRUE)
       [] f.k # "file" /\ files # <<>> /\ ~(f.e /\ IsStruct(f)) -> fail
       [] IsStruct(f) /\ ~f.l /\ (f.e \/ texts = <<>>) ->      \* by its fields
            LET base == IF v.nil THEN Bare(f) ELSE v
                in   == [j \in 1..Len(f.sub) |-> ByForm2(f.sub[j], base.f[j], M)]
                set  == \E j \in 1..Len(in) : in[j].set
            IN Set3(Res(\E j \in 1..Len(in) : in[j].err, IF v.nil /\ ~set THEN v ELSE [base EXCEPT !.f = [j \in 1..Len(in) |-> in[j].v]]), set)
       [] IsStruct(f) /\ ~f.l /\ ~(f.e \/ texts = <<>>) ->
            Set3(OfText(f, IF v.nil THEN Bare(f).f ELSE v.f, texts[1], M), TRUE)
       [] ~IsStruct(f) /\ texts = <<>> -> none
       [] f.l /\ IsStruct(f) /\ texts = <<>> -> none
       [] f.l /\ texts # <<>> -> IF f.p \/ (f.a > 0 /\ f.a # Len(texts)) THEN fail ELSE Set3(Elems(f, texts, M, Convert2), TRUE)
       [] ~f.l /\ IsMap(f) /\ texts # <<>> -> Set3(MapOfText(f, v, texts[1], M), TRUE)
       [] ~f.l /\ ~IsStruct(f) /\ ~IsMap(f) /\ texts # <<>> -> LET c == Convert2(f, texts[1]) IN Set3(Res(c.st # "ok", Text(c.v)), TRUE)

(* ------------------------------------------------------------- constraints *)
(* decimals as canonical texts: a <= b *)
IntPart(s)  == LET d == Index(s, ".") IN IF d = 0 THEN s ELSE SubSeq(s, 1, d - 1)
FracPart(s) == LET d == Index(s, ".") IN IF d = 0 THEN "" ELSE From(s, d + 1)
LeqFrac(a, b) == LET n == MaxOf({Len(a), Len(b)})
                     At(s, j) == IF j > Len(s) THEN 0 ELSE Val[Ch(s, j)]
                     D == {j \in 1..n : At(a, j) # At(b, j)}
                 IN D = {} \/ At(a, MinOf(D)) < At(b, MinOf(D))
LeqAbs(a, b) == IF IntPart(a) # IntPart(b) THEN LeqD(IntPart(a), IntPart(b)) ELSE LeqFrac(FracPart(a), FracPart(b))
Neg(s) == HasPrefix(s, "-")
Leq(a, b) == IF Neg(a) /\ Neg(b) THEN LeqAbs(From(b, 2), From(a, 2)) ELSE IF Neg(a) THEN TRUE ELSE IF Neg(b) THEN FALSE ELSE LeqAbs(a, b)

Numeric(f) == f.k \notin {"string", "bool", "time", "struct", "file", "any"}
Size(f, v, isList) == IF IsMap(f) /\ ~isList THEN ToString(Held(v)) ELSE IF isList THEN ToString(Len(v.l)) ELSE IF f.k = "string" THEN ToString(Len(v.s)) ELSE v.s
HasValue(f, v, isList) == IF isList \/ IsMap(f) THEN ~v.nil ELSE f.p \/ v.s # ZeroText(f.k)
Holds(f, v, r, isList) ==
  CASE r.r = "required" -> HasValue(f, v, isList)
    [] r.r \in {"min", "gte"} -> Leq(r.p, Size(f, v, isList))
    [] r.r \in {"max", "lte"} -> Leq(Size(f, v, isList), r.p)
    [] r.r = "gt"  -> ~Leq(Size(f, v, isList), r.p)
    [] r.r = "lt"  -> ~Leq(r.p, Size(f, v, isList))
    [] r.r = "len" -> Size(f, v, isList) = r.p
    [] r.r = "eq"  -> (IF isList THEN ToString(Len(v.l)) ELSE v.s) = r.p
    [] r.r = "ne"  -> (IF isList THEN ToString(Len(v.l)) ELSE v.s) # r.p
    [] r.r = "oneof" -> \E j \in 1..Len(Split(r.p, " ")) : Split(r.p, " ")[j] = v.s
RECURSIVE ValidObj(_, _), Rules(_, _, _, _)
(* the value is not nil; rules in order *)
Rules(f, v, rs, isList) ==
  IF rs = <<>> THEN TRUE
  ELSE CASE rs[1].r = "omitempty" -> IF HasValue(f, v, isList) THEN Rules(f, v, Tail(rs), isList) ELSE TRUE
         [] rs[1].r = "dive" -> \A j \in 1..Len(v.l) :
                 IF v.l[j].nil THEN Tail(rs) = <<>> \/ Tail(rs)[1].r = "omitempty"
                 ELSE IF IsStruct(f) THEN ValidObj(f.sub, v.l[j].f) ELSE Rules(f, v.l[j], Tail(rs), FALSE)
         [] OTHER -> Holds(f, v, rs[1], isList) /\ Rules(f, v, Tail(rs), isList)
ValidField(f, v) ==
  IF ~f.ex THEN TRUE
  ELSE IF v.nil /\ f.p /\ ~f.l THEN f.r = <<>> \/ f.r[1].r = "omitempty"
  ELSE IF IsStruct(f) /\ ~f.l THEN ValidObj(f.sub, v.f)
  ELSE Rules(f, v, f.r, f.l)
ValidObj(fs, vs) == \A j \in 1..Len(fs) : ValidField(fs[j], vs[j])

(* ----------------------------------------------------------------- requests *)
Body(q)   == q.m \in {"POST", "PUT", "PATCH"}
Cat(q)    == LET c == Lower(C!Cut(q.ct)) IN
             CASE c = "application/x-www-form-urlencoded" -> "url" [] c = "multipart/form-data" -> "multi" [] OTHER -> "other"
IsText(x) == ~x.file \/ x.fname = ""
PartVals(q)  == LET t == SelectSeq(q.parts, IsText) IN [j \in 1..Len(t) |-> <<t[j].n, t[j].s>>]
PartFiles(q) == SelectSeq(q.parts, LAMBDA x : ~IsText(x))
(* what binding by this name reads *)
Chosen(q, via) ==
  IF via # "auto" THEN via
  ELSE LET c == C!Cut(q.ct) IN
       CASE q.m = "GET" -> "form"
         [] Body(q) /\ c = "multipart/form-data" -> "multipart"
         [] q.m # "GET" /\ ~(Body(q) /\ c = "multipart/form-data") ->
              CASE c = "application/json" -> "json" [] c \in {"application/xml", "text/xml"} -> "xml" [] OTHER -> "form"
Whole(q, k) == q.bk = k /\ ~q.cut
FormBad(q, direct) == q.badq \/ (Body(q) /\ Cat(q) = "url" /\ q.bk = "garb") \/ (Body(q) /\ Cat(q) = "multi" /\ ~direct /\ ~Whole(q, "multi"))
FormVals(q, direct) ==
  InForm([m |-> q.m, ct |-> IF Cat(q) = "multi" /\ direct THEN "other" ELSE Cat(q), query |-> q.query,
          body |-> IF q.bk = "multi" THEN PartVals(q) ELSE IF q.bk = "url" THEN q.body ELSE <<>>])
HdrVals(q) == [j \in 1..Len(q.hs) |-> <<Canon(q.hs[j][1]), q.hs[j][2]>>]

(* the source of form-like binding: [err, M] *)
Source(q, b, direct) ==
  CASE b \in {"form", "formpost"} -> [err |-> FormBad(q, direct), M |-> [vals |-> FormVals(q, direct), files |-> <<>>, hdr |-> FALSE, jt |-> q.jt]]
    [] b = "multipart" -> [err |-> ~(Cat(q) = "multi" /\ Whole(q, "multi")) \/ q.badq,
                           M |-> [vals |-> PartVals(q), files |-> PartFiles(q), hdr |-> FALSE, jt |-> q.jt]]
    [] b = "query"     -> [err |-> FALSE, M |-> [vals |-> q.query, files |-> <<>>, hdr |-> FALSE, jt |-> q.jt]]
    [] b = "header"    -> [err |-> FALSE, M |-> [vals |-> HdrVals(q), files |-> <<>>, hdr |-> TRUE, jt |-> q.jt]]
    [] b = "uri"       -> [err |-> FALSE, M |-> [vals |-> q.uri, files |-> <<>>, hdr |-> FALSE, jt |-> q.jt]]

Begin(fs) == V(FALSE, "", <<>>, [j \in 1..Len(fs) |-> Start(fs[j])])
TopField(fs, ptr, an) == [n |-> "", k |-> "struct", p |-> ptr, l |-> TRUE, e |-> FALSE, ex |-> TRUE, t |-> "", d |-> "", r |-> <<>>, pre |-> FALSE, tf |-> "", tz |-> "", sub |-> fs, a |-> an]

(* the binders "2form", "2query", ... are the Bind2 of form, query, ... *)
Gin(b)  == HasPrefix(b, "2")
(* the outcome [err, v] of binding s.fs from s.q *)
Decode(fs, q, via, direct) ==
  LET b == Chosen(q, via) IN
  CASE b = "json" -> IF ~Whole(q, "json") \/ q.doc.t \notin {"obj", "null"} THEN Res(TRUE, Begin(fs))
                   ELSE IF q.doc.t = "null" THEN Res(FALSE, Begin(fs)) ELSE JsonObj(fs, Begin(fs).f, q.doc.o)
    [] b = "xml"  -> IF ~Whole(q, "xml") THEN Res(TRUE, Begin(fs)) ELSE XmlObj(fs, Begin(fs).f, q.doc.o)
    [] Gin(b) -> LET src == Source(q, From(b, 2), direct)
                     rs  == [j \in 1..Len(fs) |-> ByForm2(fs[j], Begin(fs).f[j], src.M)]
                 IN IF src.err THEN Res(TRUE, Begin(fs)) ELSE Fold(rs)
    [] OTHER -> LET src == Source(q, b, direct)
                    rs  == [j \in 1..Len(fs) |-> ByForm(fs[j], Begin(fs).f[j], src.M)]
                IN IF src.err THEN Res(TRUE, Begin(fs)) ELSE Fold(rs)
Bound(fs, q, via, direct) == LET d == Decode(fs, q, via, direct) IN IF d.err THEN d ELSE Res(~ValidObj(fs, d.v.f), d.v)
(* a list of such objects (an array if an > 0), from a document *)
BoundList(fs, ptr, an, q, via) ==
  IF Chosen(q, via) # "json" \/ ~Whole(q, "json") \/ q.doc.t \notin {"arr", "null"} THEN Res(TRUE, NilV)
  ELSE LET f == TopField(fs, ptr, an)
           d == JsonField(f, Zero(f), q.doc) IN
       IF d.err THEN d ELSE Res(\E j \in 1..Len(d.v.l) : d.v.l[j].nil \/ ~ValidObj(fs, d.v.l[j].f), d.v)
(* a map of texts: the last value of each name, or all *)
BoundMap(q, via, direct, list) ==
  LET b == Chosen(q, via)
      src == Source(q, IF Gin(b) THEN From(b, 2) ELSE b, direct) IN
  [err |-> src.err, m |-> {<<n, IF list THEN Named(src.M.vals, n) ELSE <<Named(src.M.vals, n)[Len(Named(src.M.vals, n))]>>>> :
                           n \in {src.M.vals[j][1] : j \in 1..Len(src.M.vals)}}]

(* --------------------------------------------------------------- flattening *)
RECURSIVE FlatV(_, _, _)
MapText(v) == ToString(Held(v)) \o Join([j \in 1..Len(v.l) |-> IF v.l[j].nil THEN "" ELSE "|" \o MapKeys[j] \o "=" \o v.l[j].s], "")
FlatBare(f, v, path) == IF IsMap(f) THEN <<<<path, MapText(v)>>>> ELSE IF IsStruct(f) THEN Flat([j \in 1..Len(f.sub) |-> FlatV(f.sub[j], v.f[j], path \o "." \o f.sub[j].n)]) ELSE <<<<path, v.s>>>>
FlatV(f, v, path) ==
  IF f.l THEN IF v.nil THEN <<<<path, "#nil">>>>
              ELSE <<<<path, "#" \o ToString(Len(v.l))>>>> \o
                   Flat([j \in 1..Len(v.l) |-> IF v.l[j].nil THEN <<<<path \o "." \o ToString(j - 1), "nil">>>> ELSE FlatBare(f, v.l[j], path \o "." \o ToString(j - 1))])
  ELSE IF v.nil THEN <<<<path, "nil">>>> ELSE FlatBare(f, v, path)
FlatObj(fs, vs) == Flat([j \in 1..Len(fs) |-> FlatV(fs[j], vs[j], fs[j].n)])
================================================================================
