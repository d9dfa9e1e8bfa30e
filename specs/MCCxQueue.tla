---------------------------- MODULE MCCxQueue ----------------------------
EXTENDS CxQueue, Json
CONSTANTS Caps, Pols, Kinds, Vals
Next ==
  \/ cfg = Void /\ \E c \in Caps, p \in Pols, k \in Kinds : Act("new", <<c, p, k>>)
  \/ cfg # Void /\
     \/ \E v \in Vals, m \in 0..1 : Act("push", <<v, m>>)
     \/ \E v \in Vals, w \in Vals : Act("pushw", <<v, w>>)
     \/ Act("pop", <<>>) \/ Act("clear", <<>>) \/ Act("copy", <<>>) \/ Act("move", <<>>)
     \/ \E c \in 0..1 : Act("front", <<c>>) \/ Act("back", <<c>>)
     \/ \E v \in Vals : Act("frontw", <<v>>) \/ Act("backw", <<v>>)
Spec == Init /\ [][Next]_vars
View == <<cfg, q, popi>>
Emit == PrintT(ToJson([s |-> View, e |-> ev', t |-> View']))
(* first in, first out, as an action property: a pop removes exactly the oldest element *)
Fifo == [][ (ev'.op = "pop" /\ ev'.r # <<>>) => (ev'.r[1] = Head(q) /\ q' = Tail(q)) ]_vars
===========================================================================
