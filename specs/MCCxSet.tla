------------------------------ MODULE MCCxSet ------------------------------
EXTENDS CxSet, Json
CONSTANTS Caps, Kinds, Keys
Seqs(n) == UNION {[1..k -> Keys] : k \in 0..n}
Next ==
  \/ cfg = Void /\ \E c \in Caps, k \in Kinds : Act("new", <<c, k>>)
  \/ cfg # Void /\
     \/ \E q \in Seqs(Least(Cap, 3)) : Act("ctor", <<q>>)
     \/ \E q \in Seqs(2), m \in 0..2 : Act("merge", <<q, m>>)
     \/ \E k \in Keys : Act("erase", <<k>>) \/ \E m \in 0..1 : Act("insert", <<k, m>>)
     \/ Act("reinsert", <<>>) \/ Act("eraseown", <<>>) \/ Act("mergeself", <<>>)
     \/ Act("pop", <<>>) \/ Act("clear", <<>>) \/ Act("copy", <<>>)
Spec == Init /\ [][Next]_vars
View == <<cfg, s>>
Emit == PrintT(ToJson([s |-> View, e |-> ev', t |-> View']))
===========================================================================
