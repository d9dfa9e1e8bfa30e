---------------------------- MODULE MCCxVector ----------------------------
EXTENDS CxVector, Json
CONSTANTS Caps, Kinds, Vals
Seqs(n) == UNION {[1..k -> Vals] : k \in 0..n}
Next ==
  \/ cfg = Void /\ \E c \in Caps, k \in Kinds : Act("new", <<c, k>>)
  \/ cfg # Void /\ \E x \in 1..2 :
     \/ \E s \in Seqs(Least(Cap, 2)) : Act("ctor", <<x, s>>) \/ Act("overwrite", <<x, s>>)
     \/ \E w \in Vals : \/ \E m \in 0..1 : Act("push", <<x, w, m>>)
                        \/ Act("frontw", <<x, w>>) \/ Act("backw", <<x, w>>)
                        \/ \E y \in Vals : Act("pushw", <<x, w, y>>)
                        \/ \E i \in 0..(Cap - 1) : Act("write", <<x, i, w>>) \/ Act("getw", <<x, i, w>>)
                                                   \/ Act("iterw", <<x, i, w>>) \/ Act("riterw", <<x, i, w>>)
     \/ Act("pop", <<x>>) \/ Act("clear", <<x>>) \/ Act("selfpush", <<x>>)
     \/ \E n \in 0..Cap : Act("keep", <<x, n>>)
     \/ \E y \in 1..2 : Act("copy", <<x, y>>)
Spec == Init /\ [][Next]_vars
View == <<cfg, v>>
Emit == PrintT(ToJson([s |-> View, e |-> ev', t |-> View']))
===========================================================================
