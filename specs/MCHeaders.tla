----------------------------- MODULE MCHeaders -----------------------------
EXTENDS Headers, Json
VARIABLE st
Next ==
  \/ st = 0 /\ st' = 1 /\ Act("new", <<>>)
  \/ st = 1 /\ st' = 1 /\ \E h \in Headers, b \in Builds : Act("use", <<h, b>>)
Spec == Init /\ st = 0 /\ [][Next]_<<vars, st>>
View == st
Emit == PrintT(ToJson([s |-> st, e |-> ev', t |-> st']))
===========================================================================
