------------------------------- MODULE MCTuple -------------------------------
EXTENDS Tuple, Json
VARIABLE st
Letters == {"A", "B", "S"}
(* every shape up to three elements; the values are numbered *)
Vals(ts, k) == [i \in 1..Len(ts) |-> <<ts[i], k + (3 * i)>>]
Shapes == UNION {[1..n -> Letters] : n \in 0..3}
Tuples == {Vals(s, 10) : s \in Shapes}
Small == {Vals(s, 20) : s \in UNION {[1..n -> {"A", "E", "C"}] : n \in 1..2}}
Zero(t) == [i \in 1..Len(t) |-> IF t[i][1] = "E" THEN <<"E", 0>> ELSE t[i]]
Cmps == {<<"A", 1>>, <<"A", 2>>}
Parts == {<<"P", 1>>, <<"P", 2>>, <<"P", 99>>}
Next ==
  \/ st = 0 /\ st' = 1 /\ Act("new", <<>>)
  \/ /\ st = 1 /\ st' = 1
     /\ \/ \E t \in Tuples, c \in Cats : \E op \in {"foldl", "foldr", "join", "joini", "apply", "tail"} : Act(op, <<t, c>>)
        \/ \E t \in Tuples, c \in Cats, i \in 1..3, h \in {0, 1, 2, 3, 4} : Act("get", <<t, c, i, h>>)
        \/ \E t \in Small, c \in Cats, i \in 1..2, h \in {5, 6, 7} : Act("get", <<Zero(t), c, i, h>>)
        \/ \E t \in Tuples, i \in 1..3, h \in {0, 1, 3, 8} : Act("set", <<t, i, 5, h>>)
        \/ \E t \in Tuples, c \in Cats : t # <<>> /\ Act("getref", <<t, c, Len(t), 0>>)
        \/ \E t \in Tuples : t # <<>> /\ Act("setref", <<t, Len(t), 5, 1>>)
        \/ \E n \in 0..3 : \E t, u \in [1..n -> Cmps] : Act("cmp", <<t, u>>)
        \/ \E t, u \in [1..2 -> Parts] : Act("cmp", <<t, u>>)
        \/ \E t \in Tuples : Act("traits", <<t>>)
        \/ \E s \in [1..2 -> Letters], cs \in [1..2 -> Cats] : Act("make", <<Vals(s, 10), cs>>) \/ Act("fwd", <<Vals(s, 10), cs>>)
        \/ \E n \in 0..3, v \in 1..4 : Act("oneof", <<[i \in 1..n |-> <<"I", i>>], v>>)
        \/ \E t \in Small, c \in Cats : Act("eqidx", <<Zero(t), c>>)
Spec == Init /\ st = 0 /\ [][Next]_<<vars, st>>
View == st
Emit == PrintT(ToJson([s |-> st, e |-> ev', t |-> st']))
ASSUME /\ \A t, u \in [1..2 -> Cmps] : Cmp(t, u) = 0 - Cmp(u, t)
       /\ \A t, u, w \in [1..2 -> Cmps] : (Cmp(t, u) <= 0 /\ Cmp(u, w) <= 0) => Cmp(t, w) <= 0
       /\ \A t, u \in [1..2 -> Parts] : Same(t, u) <=> Cmp(t, u) = 0
===========================================================================
