----------------------------------- MODULE Resp ---------------------------------
(* What one response becomes on the wire.  Bodies and file names are strings of      *)
(* bytes (one character each); "~~N;" in a body stands for N times the same letter.  *)
(* A program is a sequence of operations on the response state                       *)
(*   [hdr: <<<<name, value>>>>, started, code, sent (headers of the status line),    *)
(*    body, free (body not determined here), canon (value a JSON/XML body encodes),  *)
(*    ctfree (type left to the standard library), lib (its headers, too)]                                    *)
EXTENDS Str, TLC, Json
Byte == ndJsonDeserialize("bytes.ndjson")[1].b   \* character b+1 stands for byte b
Fresh == [hdr |-> <<>>, started |-> FALSE, code |-> 200, sent |-> <<>>, body |-> "", free |-> FALSE, canon |-> "", ctfree |-> FALSE, lib |-> FALSE, errs |-> <<>>]
Drop(h, n)   == SelectSeq(h, LAMBDA p : p[1] # n)
Put(h, n, v) == Append(Drop(h, n), <<n, v>>)
PutAll(h, q) == LET RECURSIVE G(_, _) G(g, j) == IF j > Len(q) THEN g ELSE G(Put(g, q[j][1], q[j][2]), j + 1) IN G(h, 1)
Values(h, n) == LET f == SelectSeq(h, LAMBDA p : p[1] = n) IN [j \in 1..Len(f) |-> f[j][2]]
CT == "Content-Type"

(* ---- the type of untyped content ------------------------------------------------ *)
Ws == {"\t", "\n", "\f", "\r", " "}
RECURSIVE SkipWs(_)
SkipWs(s) == IF s # "" /\ Ch(s, 1) \in Ws THEN SkipWs(From(s, 2)) ELSE s
Tags == {"<!doctype html", "<html", "<head", "<script", "<iframe", "<h1", "<div", "<font", "<table", "<a", "<style", "<title", "<b", "<body", "<br", "<p", "<!--"}
TagAt(s, t) == LET l == Len(t) IN Len(s) > l /\ Lower(SubSeq(s, 1, l)) = t /\ Ch(s, l + 1) \in {" ", ">"}
Binary == {SubSeq(Byte, b + 1, b + 1) : b \in (0..8) \cup {11} \cup (14..26) \cup (28..31)}
IsBinary(s) == \E j \in 1..Len(s) : Ch(s, j) \in Binary
Sniff(s) ==
  LET w == SkipWs(s) IN
  IF \E t \in Tags : TagAt(w, t) THEN "text/html; charset=utf-8"
  ELSE IF HasPrefix(w, "<?xml") THEN "text/xml; charset=utf-8"
  ELSE IF HasPrefix(s, "%PDF-") THEN "application/pdf"
  ELSE IF HasPrefix(s, "%!PS-Adobe-") THEN "application/postscript"
  ELSE IF HasPrefix(s, "GIF87a") \/ HasPrefix(s, "GIF89a") THEN "image/gif"
  ELSE IF IsBinary(s) THEN "application/octet-stream"
  ELSE "text/plain; charset=utf-8"

(* ---- file names in Content-Disposition ------------------------------------------ *)
Hex == "0123456789ABCDEF"
HexV(c) == Index(Hex, c) - 1
Plain == "ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789-_.~!$&+=:@"
IsPlain(c) == Contains(Plain, c)
(* s is percent-encoded text whose decoding is name *)
RECURSIVE Encodes(_, _)
Encodes(s, name) ==
  IF s = "" THEN name = ""
  ELSE IF name = "" THEN FALSE
  ELSE IF Ch(s, 1) = "%" THEN
       /\ Len(s) >= 3 /\ Contains(Hex, Ch(s, 2)) /\ Contains(Hex, Ch(s, 3))
       /\ Ch(Byte, HexV(Ch(s, 2)) * 16 + HexV(Ch(s, 3)) + 1) = Ch(name, 1)
       /\ Encodes(From(s, 4), From(name, 2))
  ELSE IsPlain(Ch(s, 1)) /\ Ch(s, 1) = Ch(name, 1) /\ Encodes(From(s, 2), From(name, 2))
Strip(s, pre, post) == IF HasPrefix(s, pre) /\ HasSuffix(s, post) /\ Len(s) >= Len(pre) + Len(post) THEN SubSeq(s, Len(pre) + 1, Len(s) - Len(post)) ELSE "?"
Disposed(line, kind, name) ==
  LET q == Split(line, ";") IN
  IF name = "" THEN line = kind
  ELSE /\ Len(q) = 3 /\ q[1] = kind
       /\ Encodes(Strip(TrimSpace(q[2]), "filename=\"", "\""), name)
       /\ Encodes(Strip(TrimSpace(q[3]), "filename*=UTF-8''", ""), name)

(* ---- operations ------------------------------------------------------------------ *)
Begin(s, code, sets, out) ==
  IF s.started THEN [s EXCEPT !.hdr = PutAll(@, sets), !.body = @ \o out]
  ELSE LET h == PutAll(s.hdr, sets) IN [s EXCEPT !.hdr = h, !.started = TRUE, !.code = code, !.sent = h, !.body = out]
Codes == [NotModified |-> 304, BadRequest |-> 400, Unauthorized |-> 401, Forbidden |-> 403, NotFound |-> 404, InternalServerError |-> 500]
(* the part of n bytes a request asks for: <<status, from, to>> (1-based) *)
Part(req, n) ==
  IF req.lo = -1 /\ req.hi = -1 THEN <<200, 1, n>>
  ELSE IF req.lo = -1 THEN <<206, IF req.hi >= n THEN 1 ELSE n - req.hi + 1, n>>
  ELSE IF req.lo >= n THEN <<416, 1, 0>>
  ELSE <<206, req.lo + 1, IF req.hi = -1 \/ req.hi >= n THEN n ELSE req.hi + 1>>
(* content served with ranges and conditions *)
Content(s, req, sets, mt, text) ==
  IF mt # 0 /\ req.ims # -1 /\ mt <= req.ims THEN [Begin(s, 304, sets, "") EXCEPT !.ctfree = TRUE]
  ELSE LET p == Part(req, Len(text)) IN
       IF p[1] = 416 THEN [Begin(s, 416, sets, "") EXCEPT !.free = TRUE, !.ctfree = TRUE, !.lib = TRUE]
       ELSE IF p[1] = 206 THEN Begin(s, 206, Append(sets, <<"Content-Range", "bytes " \o ToString(p[2] - 1) \o "-" \o ToString(p[3] - 1) \o "/" \o ToString(Len(text))>>), SubSeq(text, p[2], p[3]))
       ELSE Begin(s, 200, sets, text)
(* where a redirect answering a request for /k/x leads *)
Target(u) == IF HasPrefix(u, "//") THEN "http:" \o u ELSE IF HasPrefix(u, "HTTPS:") THEN "https:" \o From(u, 7) ELSE IF HasPrefix(u, "/") \/ HasPrefix(u, "http") THEN u ELSE "/k/" \o u
Err(s, e) == [s EXCEPT !.errs = Append(@, e)]
Op(req, s, op) ==
  CASE op.a = "set"     -> Err([s EXCEPT !.hdr = Put(@, op.name, op.value)], FALSE)
    [] op.a = "add"     -> Err([s EXCEPT !.hdr = Append(@, <<op.name, op.value>>)], FALSE)
    [] op.a = "cookie"  -> Err([s EXCEPT !.hdr = Append(@, <<"Set-Cookie", op.name \o "=" \o op.value>>)], FALSE)
    [] op.a = "nocache" -> Err([s EXCEPT !.hdr = PutAll(@, <<<<"Cache-Control", "no-cache, max-age=0, s-max-age=0, must-revalidate">>, <<"Expires", "0">>>>)], FALSE)
    [] op.a = "String"  -> Err(Begin(s, op.code, <<<<CT, "text/plain; charset=utf-8">>>>, op.text), FALSE)
    [] op.a = "HTMLRaw" -> Err(Begin(s, op.code, <<<<CT, "text/html; charset=utf-8">>>>, op.text), FALSE)
    [] op.a = "Data"    -> Err(Begin(s, op.code, <<<<CT, op.ct>>>>, op.text), FALSE)
    [] op.a = "JSON"    -> Err([Begin(s, op.code, <<<<CT, "application/json; charset=utf-8">>>>, "") EXCEPT !.free = TRUE, !.canon = IF op.bad THEN "" ELSE op.text], op.bad)
    [] op.a = "XML"     -> Err([Begin(s, op.code, <<<<CT, "application/xml; charset=utf-8">>>>, "") EXCEPT !.free = TRUE, !.canon = IF op.bad THEN "" ELSE op.text], op.bad)
    [] op.a = "HTMLdef" -> Err(Begin(s, op.code, <<<<CT, "text/html; charset=utf-8">>>>, ""), FALSE)
    [] op.a = "HTML"    -> Err(Begin(s, op.code, <<<<CT, "text/html; charset=utf-8">>>>, op.name \o "|" \o op.value \o "|" \o op.text), FALSE)
    [] op.a = "Write"   -> Err(IF s.started \/ Values(s.hdr, CT) # <<>> \/ op.text = "" THEN Begin(s, 200, <<>>, op.text)
                               ELSE Begin(s, 200, <<<<CT, Sniff(op.text)>>>>, op.text), FALSE)
    [] op.a = "WriteHeader" -> Err(Begin(s, op.code, <<>>, ""), FALSE)
    [] op.a = "Stream"  -> Err(IF op.text = "" THEN [s EXCEPT !.hdr = Put(@, CT, op.ct)]   \* nothing to send yet
                               ELSE Begin(s, 200, <<<<CT, op.ct>>>>, op.text), op.bad)
    [] op.a \in {"MovedPermanently", "Found"} -> Err([Begin(s, IF op.a = "Found" THEN 302 ELSE 301, <<<<"Location", Target(op.value)>>>>, "") EXCEPT !.free = TRUE, !.ctfree = TRUE], FALSE)
    [] op.a \in DOMAIN Codes -> Err(Begin(s, Codes[op.a], <<>>, ""), FALSE)
    [] op.a = "Abort"   -> Err(Begin(s, op.code, <<>>, ""), FALSE)
    [] op.a \in {"File", "ServeFile"} ->
         Err(IF op.bad THEN [Begin(s, 404, <<>>, "") EXCEPT !.free = TRUE, !.ctfree = TRUE, !.lib = TRUE]
             ELSE [Content(s, req, <<>>, op.mt, op.text) EXCEPT !.ctfree = @ \/ Values(s.hdr, CT) = <<>>], FALSE)
    [] op.a = "Download" ->
         IF op.bad THEN Err(s, TRUE)
         ELSE Err(Content(s, req, <<<<"Content-Disposition", (IF op.inline THEN "inline" ELSE "attachment") \o ";" \o op.name>>,
                                    <<CT, "application/octet-stream">>, <<"Content-Description", "File Transfer">>, <<"Content-Transfer-Encoding", "binary">>>>, op.mt, op.text), FALSE)
    [] op.a = "Attachment" ->
         Err([Content(s, req, <<<<"Content-Disposition", (IF op.inline THEN "inline" ELSE "attachment") \o ";" \o op.name>>>>, op.mt, op.text)
              EXCEPT !.ctfree = @ \/ Values(s.hdr, CT) = <<>>], FALSE)
(* the program runs in two handlers; the second only while nothing was written *)
RECURSIVE Run(_, _, _, _, _)
Run(req, s, ops, split, j) ==
  IF j > Len(ops) \/ (j = split + 1 /\ s.started) THEN s
  ELSE Run(req, Op(req, s, ops[j]), ops, split, j + 1)
Final(req) == LET s == Run(req, Fresh, req.ops, req.split, 1) IN IF s.started THEN s ELSE [s EXCEPT !.sent = s.hdr]
HasBody(req, code) == req.m # "HEAD" /\ code \notin {204, 304}
================================================================================
