------------------------------ MODULE MCBitOps ------------------------------
EXTENDS BitOps, Json
VARIABLE st
Types == <<8, 16, 32, 64, 24, 32, 128, 32, 72, 160, 96>>   \* widths of the types 0..10 of the driver
Next ==
  \/ st = 0 /\ st' = 1 /\ Act("new", <<>>)
  \/ /\ st = 1 /\ st' = 1
     /\ \/ \E f \in Unary, S \in SUBSET (0..7) : Act("un", <<f, 8, L(S)>>)
        \/ \E S \in {{}, {0}, {7}, {0, 2, 3}, {1, 6, 7}, 0..7}, s \in -20..20 : Act("rotl", <<8, L(S), s>>) \/ Act("rotr", <<8, L(S), s>>)
        \/ \E t \in {0, 1, 4} : \E m \in 0..(Types[t + 1] - 1) : \E l \in 0..m : Act("mask", <<t, m, l>>) \/ Act("maskt", <<t, m, l>>)
        \/ \E t \in {8, 10} : \E m \in 0..(Types[t + 1] - 1) : \E l \in 0..m : Act("mask", <<t, m, l>>)
        \/ \E a, b \in {{}, {0}, {7}, {1, 4}, 0..7} : Act("pack", <<16, 8, <<L(a), L(b)>>>>)
        \/ \E n \in 0..70 : Act("suint", <<n>>)
Spec == Init /\ st = 0 /\ [][Next]_<<vars, st>>
View == st
Emit == PrintT(ToJson([s |-> st, e |-> ev', t |-> st']))
Probe == {{}, {0}, {15}, {0, 15}, {3, 8}, 0..7, 8..15, 0..15, {1, 2, 5, 9, 12}}
ASSUME \A S \in Probe : /\ Swap(16, Swap(16, S)) = S
                        /\ Join(8, Split(16, 8, S)) = S
                        /\ Split(16, 8, Join(8, Split(16, 8, S))) = Split(16, 8, S)
                        /\ \A s \in -40..40 : Rot(16, Rot(16, S, s), 0 - s) = S
                        /\ \A o \in 1..15 : LET d == Destructure(16, <<o>>, S) IN d[1] \cup {p + o : p \in d[2]} = S
                        /\ Clz(16, S) + Width(S) = 16
===========================================================================
