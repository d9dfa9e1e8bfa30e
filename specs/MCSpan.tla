------------------------------- MODULE MCSpan -------------------------------
EXTENDS Span, Json
Data == {<<0, <<258, 515, 772, 65535>>>>, <<1, <<258>>>>, <<1, <<1, 2, 3, 4>>>>, <<2, <<>>>>, <<2, <<513, 2, 3>>>>}
Next ==
  \/ sto = Void /\ \E x \in Data : Act("new", x)
  \/ sto # Void /\
     \/ \E e \in {Dyn, 0}, c \in 0..1 : Act("none", <<e, c>>)
     \/ \E e \in {Dyn} \cup 0..4, c \in 0..1, h \in 0..2 : Act("whole", <<e, c, h>>)
     \/ \E c \in 0..1 : Act("deduce", <<c>>) \/ Act("todyn", <<c>>) \/ Act("tostat", <<c>>)
     \/ \E o \in 0..2, n \in 0..2, s \in BOOLEAN, c \in 0..1, h \in 0..1 : Act("part", <<o, n, IF s THEN n ELSE Dyn, c, h>>)
     \/ \E n \in 0..4, st \in 0..1 : Act("first", <<n, st>>) \/ Act("last", <<n, st>>)
     \/ \E o \in 0..4, n \in -1..4, st \in 0..1 : Act("sub", <<o, n, st>>)
     \/ \E i \in 1..4, h \in 0..5 : Act("write", <<i, 7, h>>)
     \/ \E i \in 0..3 : Act("get", <<i>>)
     \/ Act("cap", <<>>)
(* only histories with at most one element written *)
Bound == Cardinality({i \in 1..Len(data') : data'[i] = 7}) <= 1
Spec == Init /\ [][Next]_vars
VView == <<sto, data, v>>
Emit == PrintT(ToJson([s |-> VView, e |-> ev', t |-> VView']))
===========================================================================
