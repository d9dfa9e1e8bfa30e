-------------------------------- MODULE MCEnv --------------------------------
EXTENDS Env, Json
Ks == 1..Keys
Vals == 1..2
PairLists == {<<<<k, v>>>> : k \in Ks, v \in Vals} \cup {<<<<k, v>>, <<l, w>>>> : k \in Ks, l \in Ks, v \in Vals, w \in Vals}
Next ==
  \/ env = Void /\ Act("new", <<>>)
  \/ /\ env # Void
     /\ \/ \E i \in 1..Slots :
           \/ \E ps \in PairLists : \E j \in 1..Slots : Act("extend", <<i, j, ps>>)
           \/ \E ps \in PairLists \cup {<<>>} : Act("make", <<i, ps>>)
           \/ \E js \in UNION {[1..n -> 1..Slots] : n \in 1..2} : Act("append", <<i, js>>)
           \/ \E k \in Ks, f \in 0..2 : Act("queryd", <<i, k, f>>)
           \/ \E k \in Ks, f \in 0..1 : Act("query", <<i, k, f>>)
        \/ \E js \in UNION {[1..n -> 1..Slots] : n \in 0..2} : Act("compose", <<js>>)
Spec == Init /\ [][Next]_vars
View == env
Emit == PrintT(ToJson([s |-> env, e |-> ev', t |-> env']))
===========================================================================
