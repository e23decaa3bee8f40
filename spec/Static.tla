---------------------------------- MODULE Static --------------------------------
(* Static serving.  tree: "/a/b" -> [dir, text, mt]; "/" is the root; mt is what the   *)
(* tags depend on besides text and name: the modification time (and a hole's size).  *)
(* opt: [prefix, index, fs ("dir": cleans names, "fs": accepts clean names only),    *)
(*       etag (0 none, 1, 2), expires]                                               *)
EXTENDS Routing, FiniteSets
RECURSIVE CleanSegs(_, _)
CleanSegs(q, acc) == IF q = <<>> THEN acc
                     ELSE CleanSegs(Tail(q), IF q[1] \in {"", "."} THEN acc
                                             ELSE IF q[1] = ".." THEN (IF acc = <<>> THEN acc ELSE SubSeq(acc, 1, Len(acc) - 1))
                                             ELSE Append(acc, q[1]))
Clean(p) == "/" \o Join(CleanSegs(Split(p, "/"), <<>>), "/")    \* of a rooted path
Base(p)  == LET q == Split(p, "/") IN q[Len(q)]
ValidName(n) == \A j \in 1..Len(Split(n, "/")) : Split(n, "/")[j] \notin {"", ".", ".."}
None == [dir |-> FALSE, text |-> "", mt |-> <<>>]
(* the node a name given by the route stands for: a name of "fs" may carry one "/"   *)
(* in front; "." is its root                                                         *)
FsName(name) == IF name = "/" THEN "." ELSE IF HasPrefix(name, "/") THEN From(name, 2) ELSE name
Lookup(tree, opt, name) ==
  LET c == Clean("/" \o name) IN
  IF (opt.fs = "fs" /\ FsName(name) # "." /\ ~ValidName(FsName(name))) \/ c \notin DOMAIN tree THEN None ELSE tree[c]
Is(n) == n # None
Children(tree, d) == {c \in DOMAIN tree : c # "/" /\ LET q == Split(c, "/") IN (IF Len(q) = 2 THEN "/" ELSE Join(SubSeq(q, 1, Len(q) - 1), "/")) = d}
Names(tree, d) == {Base(c) \o (IF tree[c].dir THEN "/" ELSE "") : c \in Children(tree, d)}

Pattern(opt) == (IF opt.prefix = "" THEN "" ELSE opt.prefix) \o "/*"
StaticTree(opts, singles) ==
  LET RECURSIVE A(_, _)
      A(t, j) == IF j > Len(opts) + Len(singles) THEN t
                 ELSE A(TreeAdd(t, PatternSegs(IF j <= Len(opts) THEN Pattern(opts[j]) ELSE singles[j - Len(opts)].uri), j), j + 1)
  IN A(EmptyTree, 1)
Ans(kind, loc, text, names, tagkey, exists) == [kind |-> kind, loc |-> loc, text |-> text, names |-> names, key |-> tagkey, exists |-> exists]
NoKey == <<>>
Missing == Ans("404", "", "", {}, NoKey, FALSE)
File(n, key) == Ans("file", "", n.text, {}, key, TRUE)
(* what the path (decoded) gets; size is the length in bytes, all texts are ASCII *)
Answer(tree, opts, singles, path) ==
  LET m == MatchTree(<<>>, StaticTree(opts, singles), path) IN
  IF m.r = 0 THEN Missing
  ELSE IF m.r > Len(opts) THEN
     LET s == singles[m.r - Len(opts)] IN IF s.missing THEN Missing ELSE [File([text |-> s.text], NoKey) EXCEPT !.exists = FALSE]
  ELSE
  LET opt  == opts[m.r]
      rest == CapturesOf(<<>>, PatternSegs(Pattern(opt)), path)["*0"]
      n    == Lookup(tree, opt, rest)
      c    == Clean("/" \o rest)
      idx  == (IF c = "/" THEN "/" ELSE c \o "/") \o opt.index
      html == (IF c = "/" THEN "/" ELSE c \o "/") \o "index.html"
  IN IF ~Is(n) THEN Missing
     ELSE IF ~n.dir THEN File(n, CASE opt.etag = 0 -> NoKey [] opt.etag = 1 -> <<n.mt, Len(n.text)>> [] opt.etag = 2 -> <<n.mt, Len(n.text), Base(c)>>)
     ELSE IF ~HasSuffix(path, "/") /\ Clean(path) # "/" THEN Ans("redirect", Clean(path) \o "/", "", {}, NoKey, TRUE)
     ELSE IF opt.index # "" THEN
          LET x == IF Clean(idx) \in DOMAIN tree THEN tree[Clean(idx)] ELSE None IN
          IF ~Is(x) \/ x.dir THEN [Missing EXCEPT !.exists = TRUE] ELSE File(x, NoKey)
     ELSE IF html \in DOMAIN tree /\ ~tree[html].dir THEN File(tree[html], NoKey)
     ELSE Ans("list", "", "", Names(tree, c), NoKey, TRUE)
OptOf(tree, opts, singles, path) == LET m == MatchTree(<<>>, StaticTree(opts, singles), path) IN IF m.r = 0 \/ m.r > Len(opts) THEN 0 ELSE m.r
================================================================================
