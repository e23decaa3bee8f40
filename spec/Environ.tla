--------------------------------- MODULE Environ --------------------------------
(* The environment of a request: a write-once map.  envs: request -> environment,  *)
(* an environment is a function from names to values <<type, text>>.               *)
EXTENDS Str, TLC, FiniteSets
Empty == [x \in {} |-> <<"", "">>]
Has(env, name) == name \in DOMAIN env
Put(f, x, v) == [y \in DOMAIN f \cup {x} |-> IF y = x THEN v ELSE f[y]]

(* what an operation gives: [panic, t, v, ok] *)
Res(t, v, ok) == [panic |-> FALSE, t |-> t, v |-> v, ok |-> ok]
Refused       == [panic |-> TRUE, t |-> "", v |-> "", ok |-> FALSE]
Plain         == Res("", "", FALSE)
Moves         == {"ret", "next", "die"}

Apply(envs, op) ==
  LET env == envs[op.r]
      has == Has(env, op.name)
  IN CASE op.a \in {"set", "eset"} -> IF has THEN Refused ELSE Plain
       [] op.a \in {"get", "eget"} -> IF has THEN Res(env[op.name][1], env[op.name][2], FALSE) ELSE Refused
       [] op.a = "maybe" -> IF has THEN Res(env[op.name][1], env[op.name][2], TRUE) ELSE Res("nil", "", FALSE)
       [] op.a = "has"   -> Res("", "", has)
       [] op.a = "len"   -> Res("", ToString(Cardinality(DOMAIN env)), FALSE)
       [] op.a = "typed" -> IF has /\ env[op.name][1] = op.t THEN Res(op.t, env[op.name][2], FALSE) ELSE Refused
       [] OTHER -> Plain
After(envs, op) ==
  CASE op.a = "start" -> Put(envs, op.r, Empty)
    [] op.a \in {"set", "eset"} /\ ~Has(envs[op.r], op.name) -> [envs EXCEPT ![op.r] = Put(@, op.name, <<op.t, op.v>>)]
    [] OTHER -> envs
================================================================================
