------------------------------ MODULE MCPanics ------------------------------
EXTENDS Panics, Json
CONSTANT Inst
Args == {<<>>, <<<<"A", 1, "l">>>>, <<<<"A", 1, "r">>, <<"I", 2, "c">>>>, <<<<"M", 3, "r">>, <<"S", 4, "l">>, <<"A", 5, "c">>>>}
Explicit == \/ \E t \in 0..3, s \in Args : Act("panic", <<t, 0, "", s>>)
            \/ \E t \in 0..3, m \in {"", "uh-oh", "100%"}, s \in Args : Act("panic", <<t, 1, m, s>>)
            \/ \E m \in {"", "x y"}, s \in Args : Act("panic", <<0, 2, m, s>>)
(* one container at a time, so that the graph stays small *)
Next ==
  \/ in = Void /\ \E c \in {1, 3} : Act("new", <<Inst, c>>)
  \/ in # Void /\ \E m \in 0..1 : m # th /\ Act("mode", <<m>>)
  \/ in # Void /\ cap = 3 /\ q = <<>> /\ l = <<>> /\ f = <<>> /\ Explicit
  \/ l = <<>> /\ f = <<>> /\ (Act("qpush", <<Len(q) + 1>>) \/ Act("qpop", <<>>) \/ Act("qpeek", <<>>) \/ Act("qclear", <<>>))
  \/ cap = 3 /\ q = <<>> /\ f = <<>> /\ (\/ \E n \in 1..3 : Act("lfront", <<n>>) \/ Act("lback", <<n>>) \/ Act("lrm", <<n>>)
                              \/ \E n \in 1..3, p \in 0..3 : Act("lins", <<n, p>>)
                              \/ Act("lpopb", <<>>) \/ Act("lclear", <<>>))
  \/ cap = 3 /\ q = <<>> /\ l = <<>> /\ (\/ \E n \in 1..3 : Act("ffront", <<n>>) \/ Act("fback", <<n>>)
                              \/ Act("fpop", <<>>) \/ Act("fclear", <<>>))
Spec == Init /\ [][Next]_vars
View == <<in, cap, th, q, l, f>>
Emit == PrintT(ToJson([s |-> View, e |-> ev', t |-> View']))
===========================================================================
