---------------------------- MODULE MCCxMultimap ----------------------------
EXTENDS CxMultimap, Json
CONSTANTS KNs, VNs, Kinds, KeySet, Vals
Next ==
  \/ cfg = Void /\ \E c \in KNs, d \in VNs, k \in Kinds : Act("new", <<c, d, k>>)
  \/ cfg # Void /\
     \/ \E k \in KeySet : \/ Act("erasek", <<k>>) \/ Act("insertk", <<k>>) \/ Act("putk", <<k>>) \/ Act("getclr", <<k>>)
                          \/ \E v \in Vals : Act("insert", <<k, v>>) \/ Act("put", <<k, v>>) \/ Act("erase", <<k, v>>)
                                             \/ Act("getins", <<k, v>>)
     \/ Act("eraseown", <<>>) \/ Act("clear", <<>>) \/ Act("copy", <<>>)
Spec == Init /\ [][Next]_vars
View == <<cfg, m>>
Emit == PrintT(ToJson([s |-> View, e |-> ev', t |-> View']))
===========================================================================
