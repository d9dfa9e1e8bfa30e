------------------------------ MODULE MCThrows ------------------------------
EXTENDS Throws, Json
CONSTANTS Caps, Vals, Fuses
Armed == {<<0, 0>>} \cup {1, 2} \X Fuses
Next ==
  \/ cfg = Void /\ (Act("new", <<0, 0>>) \/ \E k \in 1..7, c \in Caps : (k = Optional => c = 1) /\ Act("new", <<k, c>>))
  \/ cfg # Void /\
     \/ \E t \in Armed :
          \/ \E v \in Vals : \/ \E m \in 0..1 : Act("add", <<v, m>> \o t)
                             \/ \E w \in Vals : Act("put", <<v, w>> \o t) \/ Act("cut", <<v, w>> \o t)
                             \/ Act("drop", <<v>> \o t) \/ Act("assign", <<v>> \o t) \/ Act("find", <<v>> \o t)
          \/ Act("take", t)
          \/ \E n \in 0..2 : Act("resize", <<n>> \o t)
          \/ \E m \in 0..1 : Act("copy", <<m>> \o t)
     \/ Act("clear", <<>>)
     \/ \E g \in Algs, n \in 0..4, at \in 0..5 : Act("tell", <<g, n, at>>)
Spec == Init /\ [][Next]_vars
View == <<cfg, x>>
Emit == PrintT(ToJson([s |-> View, e |-> ev', t |-> View']))
===========================================================================
