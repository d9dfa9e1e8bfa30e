------------------------------- MODULE MCLazy -------------------------------
EXTENDS Lazy, Json
CONSTANTS Kinds, MaxCount
Bound == count' <= MaxCount
Next ==
  \/ kind = Void /\ \E k \in Kinds, f \in {<<0, 0>>, <<1, 1>>, <<0, 1>>} : Act("new", <<k>> \o f)
  \/ kind # Void /\
     \/ Act("arm", <<>>)
     \/ \E j \in 1..2 :
        \/ \E w \in 0..1 : Act("make", <<j, w>>) \/ Act("copy", <<j, w>>) \/ Act("move", <<j, w>>)
        \/ \E h \in Hows : Act("access", <<j, h>>)
        \/ Act("query", <<j>>) \/ Act("reset", <<j>>)
        \/ \E w \in {-1, 1} : Act("refresh", <<j, w>>)
(* a computation runs only in an access of an absent value or a refresh, and at most once *)
NeverEarly == [][count' # count => /\ count' = count + 1 \/ kind' # kind
                                   /\ ev'.op \in {"access", "refresh", "new"}]_vars
Latch == [][\A j \in 1..2 : (kind # Void /\ fam[j] = 0 /\ has[j] /\ ~has'[j]) => ev'.op \in {"make", "copy", "move"}]_vars
Spec == Init /\ [][Next]_vars
View == <<kind, fam, has, val, count, armed>>
Emit == PrintT(ToJson([s |-> View, e |-> ev', t |-> View']))
===========================================================================
