------------------------------ MODULE MCIList ------------------------------
EXTENDS IList, Json
CONSTANTS Kinds, Pols, Mode, N, Lists, Dirt
Next ==
  \/ cfg = Void /\ \E k \in Kinds, p \in Pols : Act("new", <<k, p, Mode, N>>)
  \/ cfg # Void /\
     \/ \E j \in Lists : \/ Act("popf", <<j>>) \/ Act("popb", <<j>>) \/ Act("clear", <<j>>)
                         \/ \E n \in 1..N : Act("pushf", <<j, n>>) \/ Act("pushb", <<j, n>>) \/ Act("rm", <<j, n>>)
                                            \/ \E i \in 0..N : Act("ins", <<j, i, n>>)
     \/ \E n \in 1..N, d \in Dirt : \E e \in Dirt : Act("dirty", <<n, d, e>>)
Spec == Init /\ [][Next]_vars
View == <<cfg, l, lk>>
Emit == PrintT(ToJson([s |-> View, e |-> ev', t |-> View']))
===========================================================================
