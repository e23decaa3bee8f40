-------------------------------- MODULE MCStatic --------------------------------
(* Every path of up to MaxSegs segments over a small alphabet, on every small file   *)
(* tree and serving configuration.                                                   *)
EXTENDS Static, Json
CONSTANTS MaxSegs, Alphabet
VARIABLES tree, opt, path
vars == <<tree, opt, path>>
F(t) == [dir |-> FALSE, text |-> t, mt |-> <<1600000000>>]
D == [dir |-> TRUE, text |-> "", mt |-> <<0>>]
Full == ("/" :> D) @@ ("/f" :> F("F")) @@ ("/d" :> D) @@ ("/d/f" :> F("DF")) @@ ("/d/e" :> D) @@ ("/d/e/index.html" :> F("IDX"))
Trees == {Full, ("/" :> D), ("/" :> D) @@ ("/p" :> D) @@ ("/p/f" :> F("PF")) @@ ("/index.html" :> F("TOP"))}
Opts == {[prefix |-> p, index |-> x, fs |-> s, etag |-> 0, expires |-> FALSE] : p \in {"", "/p"}, x \in {"", "f"}, s \in {"dir", "fs"}}
Paths == {"/" \o Join(q, "/") : q \in UNION {[1..n -> Alphabet] : n \in 0..MaxSegs}}
Init == tree \in Trees /\ opt \in Opts /\ path \in Paths
Next == UNCHANGED vars
Spec == Init /\ [][Next]_vars
A == Answer(tree, <<opt>>, <<>>, path)
Texts == {tree[x].text : x \in DOMAIN tree}
(* M02 *)
NothingElse == /\ A.kind = "file" => A.text \in Texts \ {""}
               /\ A.kind = "list" => \E d \in DOMAIN tree : tree[d].dir /\ A.names = Names(tree, d)
UnderPrefix == A.kind # "404" => HasPrefix(path, opt.prefix \o "/")
(* a plain path gets exactly the file it names *)
Plain == \A x \in DOMAIN tree : (x # "/" /\ path = opt.prefix \o x) =>
           IF tree[x].dir THEN A.kind = "redirect" /\ A.loc = path \o "/" ELSE A.kind = "file" /\ A.text = tree[x].text
(* following the redirect of a directory never redirects again *)
OneRedirect == A.kind = "redirect" => Answer(tree, <<opt>>, <<>>, A.loc).kind # "redirect"
PrefixIsMoved == LET o2 == [opt EXCEPT !.prefix = "/q/r"]
                     rest == From(path, Len(opt.prefix) + 1)
                 IN (HasPrefix(path, opt.prefix \o "/") /\ Clean(path) = path /\ rest # "/" /\ rest # "") =>
                      [A EXCEPT !.loc = ""] = [Answer(tree, <<o2>>, <<>>, "/q/r" \o rest) EXCEPT !.loc = ""]
Files == LET RECURSIVE L(_) L(X) == IF X = {} THEN <<>> ELSE LET x == CHOOSE y \in X : \A z \in X : Len(y) <= Len(z)
                                      IN <<[path |-> x, dir |-> tree[x].dir, text |-> tree[x].text, mt |-> tree[x].mt[1]]>> \o L(X \ {x})
         IN L(DOMAIN tree)
Emit == PrintT("SCEN " \o ToJson([id |-> "mc", opts |-> <<opt>>, singles |-> <<>>, files |-> Files,
          ops |-> <<[a |-> "get", m |-> "GET", path |-> path, raw |-> path, inm |-> "", text |-> "", mt |-> 0],
                    [a |-> "get", m |-> "HEAD", path |-> path, raw |-> path, inm |-> "", text |-> "", mt |-> 0]>>]))
================================================================================
