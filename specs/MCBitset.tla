----------------------------- MODULE MCBitset -----------------------------
EXTENDS Bitset, Json
CONSTANTS Cfgs,      \* set of <<size, element width>>
          Two        \* whether the second register is used

CfgsSmall == {<<1, 8>>, <<2, 0>>, <<3, 8>>}
CfgsFour == {<<4, 16>>}
CfgsNine == {<<9, 8>>}
Targets == IF Two THEN {1, 2} ELSE {1}
AllBits == {Sorted(S) : S \in SUBSET (0..(N + 1))}
Next ==
  \/ N = Void /\ \E c \in Cfgs : Act("new", c)
  \/ N # Void /\
     \/ \E r \in Targets : \E i \in Pos :
          \/ \E v \in 0..1 : Act("set", <<r, i, v>>)
          \/ Act("reset", <<r, i>>) \/ Act("flip", <<r, i>>)
     \/ \E r \in Targets : \E l \in Pos : \E m \in l..(N - 1) :
          \/ \E v \in 0..1 : Act("set_range", <<r, l, m, v>>)
          \/ Two /\ \E v \in 0..1 : Act("set_len", <<r, l, m - l + 1, v>>)
          \/ Two /\ Act("reset_range", <<r, l, m>>)
     \/ \E r \in Targets : Act("set_all", <<r>>) \/ Act("reset_all", <<r>>) \/ Act("flip_all", <<r>>)
                            \/ Act("ctor_all", <<r>>)
     \/ \E r \in Targets : \E k \in 0..(N + 1) :
          \/ Act("shl_as", <<r, k>>) \/ Act("shr_as", <<r, k>>)
          \/ Two /\ \E s \in Targets : Act("shl", <<r, s, k>>) \/ Act("shr", <<r, s, k>>)
     \/ Two /\ \E r \in 1..2, s \in 1..2 :
          \/ Act("copy", <<r, s>>) \/ Act("or_as", <<r, s>>) \/ Act("and_as", <<r, s>>)
          \/ Act("xor_as", <<r, s>>) \/ Act("not", <<r, s>>)
          \/ \E t \in 1..2 : \/ Act("or", <<r, s, t>>) \/ Act("and", <<r, s, t>>)
                             \/ Act("xor", <<r, s, t>>) \/ Act("minus", <<r, s, t>>)
     \/ Two /\ \E bs \in AllBits : Act("ctor_u64", <<1, bs>>)
Spec == Init /\ [][Next]_vars
View == <<N, reg>>
Emit == PrintT(ToJson([s |-> View, e |-> ev', t |-> View']))
===========================================================================
