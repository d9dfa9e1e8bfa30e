------------------------------- MODULE MCAlgos -------------------------------
EXTENDS Algos, Json
Contents(n) == [i \in 1..n |-> 10 + 3 * i]
Other(k, n, d) == IF k = Counting THEN <<Counting, <<d>>>> ELSE <<k, [i \in 1..n |-> d + (5 * i) - ((i * i) % 4)]>>
Patterns(n) == {<<>>, <<Other(3, n, 40)>>, <<Other(0, n, 41)>>, <<Other(Counting, n, -1)>>,
                <<Other(1, n + 1, 43), Other(Counting, n, 7)>>, <<Other(0, n, 44), Other(3, n + 2, 45), Other(Counting, n, 0)>>}
Next ==
  \/ ty = Void /\ \E t \in 0..5, p \in {<<0, 0>>, <<3, 1>>} : Act("new", <<t, p[1], p[2]>>)
  \/ ty = 0 /\ x = 0 /\ y = 0 /\
     \/ \E k \in 0..3, n \in 0..4, t \in 0..3, d \in 0..1 : \E p \in Patterns(n) : \E c \in (IF t \in {0, 3} THEN -1..n ELSE 0..n) :
          \/ d = 0 /\ t = 0 /\ c = 0 /\ \E op \in {"each", "but1", "reduce"} : Act(op, <<k, Contents(n), p, 0, 0, 0>>)
          \/ t = 0 /\ c = 0 /\ Act("trans", <<k, Contents(n), p, 0, 0, d>>)
          \/ d = 0 /\ \E op \in {"eachn", "reducen"} : Act(op, <<k, Contents(n), p, c, t, 0>>)
          \/ Act("transn", <<k, Contents(n), p, c, t, d>>)
     \/ \E k \in 1..3, n \in 0..4, t \in 0..3, c \in 0..6 : \E p \in Patterns(n) : Act("butlast", <<k, Contents(n), p, c, t, 0>>)
     \/ \E k \in 1..3, n \in 0..5 : Act("imf", <<k, Contents(n), <<>>, 0, 0, 0>>)
  \/ ty # Void /\
     \/ \E op \in {"inc", "pinc", "dec", "pdec", "diff", "cmp", "swap"} : Act(op, <<>>)
     \/ \E op \in {"add", "sub", "plus", "minus"}, d \in 0..2, h \in 0..1 : Act(op, <<d, h>>)
Bound == x' \in -2..4 /\ y' \in -2..4
Spec == Init /\ [][Next]_vars
View == <<ty, x, y>>
Emit == PrintT(ToJson([s |-> View, e |-> ev', t |-> View']))
===========================================================================
