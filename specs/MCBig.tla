------------------------------- MODULE MCBig -------------------------------
EXTENDS Big, Json
CONSTANTS Asked, Caps, Top
Next ==
  \/ cfg = Void /\ \E k \in Asked, c \in Caps : Act("new", <<k, c>>)
  \/ cfg # Void /\
     \/ \E n \in 0..2 : Act("drop", <<n>>) \/ (hi + n <= Top /\ Act("add", <<n>>))
     \/ \E n \in 0..Top : Act("seek", <<n>>) \/ Act("at", <<n>>)
     \/ \E n \in 0..2 : Act("trim", <<n>>)
     \/ Act("again", <<>>) \/ Act("copy", <<>>) \/ Act("clear", <<>>)
Spec == Init /\ [][Next]_vars
View == <<cfg, lo, hi>>
Emit == PrintT(ToJson([s |-> View, e |-> ev', t |-> View']))
(* what is added can be dropped again *)
Balanced == [][ (ev'.op = "drop" => N - (hi' - lo') = ev'.a[1]) /\ (ev'.op = "add" => (hi' - lo') - N = ev'.a[1]) ]_vars
=============================================================================
