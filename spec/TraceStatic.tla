------------------------------- MODULE TraceStatic ------------------------------
(* Requests to static routes, while files are written and removed.                  *)
(* tags: the entity tags seen so far, <<scheme and key, tag>>                        *)
EXTENDS Static, Json, IOUtils
Prop  == IOEnv.PROP
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES k, i, tree, tags
vars == <<k, i, tree, tags>>
View == <<k, i>>
S    == Trace[k]
Range(q) == {q[x] : x \in 1..Len(q)}
Node1(f) == [dir |-> f.dir, text |-> f.text, mt |-> <<f.era, f.mt, f.big>>]
Init == /\ k \in 1..Len(Trace) /\ i = 0 /\ tags = {}
        /\ tree = LET D == {Trace[k].files[x].path : x \in 1..Len(Trace[k].files)}
                  IN [p \in D |-> Node1(CHOOSE f \in Range(Trace[k].files) : f.path = p)]
(* all of it, or the part that was asked for; of an empty file there is no part *)
Served(rg, o, t, body(_)) ==
  \/ o.code = 200 /\ body(t)
  \/ rg # "" /\ o.code = 416 /\ (rg = "beyond" \/ t = "")
  \/ rg = "all"   /\ o.code = 206 /\ body(t)
  \/ rg = "first" /\ o.code = 206 /\ body(IF t = "" THEN "" ELSE SubSeq(t, 1, 1))
  \/ rg = "last"  /\ o.code = 206 /\ body(IF t = "" THEN "" ELSE SubSeq(t, Len(t), Len(t)))
Fetch(op, o) ==
  LET a    == Answer(tree, S.opts, S.singles, op.path)
      oi   == OptOf(tree, S.opts, S.singles, op.path)
      head == op.m = "HEAD"
      same == o.inm # "" /\ o.inm = o.etag
      body(t) == o.body = (IF head THEN "" ELSE t)
      tagged == a.kind = "file" /\ a.key # NoKey
  IN /\ o.err = ""
     /\ CASE a.kind = "404" -> o.code = 404
          [] a.kind = "redirect" -> o.code \in {301, 302, 303, 307, 308} /\ o.loc = a.loc
          [] a.kind = "file" -> IF tagged /\ same THEN o.code = 304 /\ o.body = "" ELSE Served(op.rg, o, a.text, body)
          [] a.kind = "list" -> o.code = 200 /\ (~head => Range(o.names) = a.names)
     /\ IF Prop = "M03"
        THEN /\ IF o.code = 416 THEN tags' = tags
                ELSE
                IF tagged THEN /\ o.etag # ""
                               /\ \A t \in tags : Len(t[1]) = Len(a.key) => (t[1] = a.key <=> t[2] = o.etag)
                               /\ tags' = tags \cup {<<a.key, o.etag>>}
                ELSE o.etag = "" /\ tags' = tags
             /\ o.expires = (IF oi # 0 /\ S.opts[oi].expires /\ a.exists THEN "E" \o ToString(i + 1) ELSE "")
        ELSE tags' = tags
Without(p) == [x \in DOMAIN tree \ {p} |-> tree[x]]
Step == /\ i < Len(S.ops)
        /\ LET op == S.ops[i + 1] o == S.obs[i + 1] IN
           CASE op.a = "get"   -> Fetch(op, o) /\ UNCHANGED tree
             [] op.a = "write" -> UNCHANGED tags /\ tree' = [x \in DOMAIN tree \cup {op.path} |-> IF x = op.path THEN [dir |-> FALSE, text |-> op.text, mt |-> <<op.era, op.mt, op.big>>] ELSE tree[x]]
             [] op.a = "rm"    -> UNCHANGED tags /\ tree' = Without(op.path)
        /\ i' = i + 1 /\ UNCHANGED k
Done == /\ i = Len(S.ops) /\ Len(S.obs) = i /\ (Prop = "M02" => S.open = 0) /\ PrintT("ACCEPTED " \o ToString(k)) /\ i' = i + 1 /\ UNCHANGED <<k, tree, tags>>
Next == Step \/ Done
Spec == Init /\ [][Next]_vars
================================================================================
