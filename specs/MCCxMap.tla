------------------------------ MODULE MCCxMap ------------------------------
EXTENDS CxMap, Json
CONSTANTS Caps, Kinds, KeySet, Vals
PairSeqs(n) == UNION {[1..k -> KeySet \X Vals] : k \in 0..n}
Next ==
  \/ cfg = Void /\ \E c \in Caps, k \in Kinds : Act("new", <<c, k>>)
  \/ cfg # Void /\
     \/ \E q \in PairSeqs(Least(Cap, 2)) : Act("ctor", <<q>>)
     \/ \E k \in KeySet : \/ Act("erase", <<k>>)
                          \/ \E v \in Vals : Act("insert", <<k, v>>) \/ Act("put", <<k, v>>) \/ Act("getw", <<k, v>>)
                          \/ \E j \in KeySet : Act("insfrom", <<k, j>>)
     \/ Act("eraseown", <<>>) \/ Act("pop", <<>>) \/ Act("clear", <<>>) \/ Act("copy", <<>>)
Spec == Init /\ [][Next]_vars
View == <<cfg, m>>
Emit == PrintT(ToJson([s |-> View, e |-> ev', t |-> View']))
===========================================================================
