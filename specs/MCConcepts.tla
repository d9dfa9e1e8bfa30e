----------------------------- MODULE MCConcepts -----------------------------
EXTENDS Concepts, Json
VARIABLE st
Args == {<<>>, <<"int">>, <<"ptr">>, <<"es">>, <<"int", "derived">>}
(* a type that derives from another turns into it; ordered types compare *)
ASSUME \A x, y \in Kinds : Two(x, y)[2] = 1 => Two(x, y)[3] = 1
ASSUME \A x \in Kinds : One(x, "")[6] = 1 => One(x, "")[5] = 1
ASSUME \A x \in Kinds, q \in {"", "c"} : One(x, q)[3] + One(x, q)[4] = One(x, q)[2]
Next ==
  \/ st = 0 /\ st' = 1 /\ Act("new", <<>>)
  \/ /\ st = 1 /\ st' = 1
     /\ \/ \E k \in Kinds, q \in {"", "c", "&", "c&"} : Act("one", <<k, q>>)
        \/ \E x, y \in Kinds : Act("two", <<x, y>>)
        \/ \E how \in {"lambda", "function", "pointer", "member"}, p \in {<<>>, <<"int">>, <<"bool">>, <<"int", "base">>}, g \in Gives, a \in Args : Act("call", <<how, p, g, a>>)
Spec == Init /\ st = 0 /\ [][Next]_<<vars, st>>
View == st
Emit == PrintT(ToJson([s |-> st, e |-> ev', t |-> st']))
===========================================================================
