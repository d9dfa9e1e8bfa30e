--------------------------- MODULE MCTypeBitset ---------------------------
EXTENDS TypeBitset, Json
(* index of a list in the driver's table, with the list *)
Lists == {<<1, <<0>>>>, <<2, <<0, 0>>>>, <<3, <<5, 0, 5, 1>>>>}
Sels(l) == {<<t>> : t \in ToSet(l)} \cup {l}
Next ==
  \/ cfg = Void /\ \E l \in Lists : Act("new", l)
  \/ cfg # Void /\ \E r \in 1..2 :
     \/ \E s \in Sels(cfg) : \/ \E op \in {"ctor", "set", "reset", "clear", "flip"} : Act(op, <<r, s>>)
                             \/ \E v \in 0..1 : Act("setv", <<r, s, v>>)
     \/ \E op \in {"ctor_all", "set_all", "reset_all", "clear_all", "flip_all"} : Act(op, <<r>>)
     \/ \E S \in SUBSET (0..3) : Act("ctor_u64", <<r, Sorted(S)>>)
     \/ \E q \in 1..2, op \in {"or", "and", "xor", "or_as", "and_as", "xor_as", "minus", "not", "copy"} : Act(op, <<r, q>>)
Spec == Init /\ [][Next]_vars
View == <<cfg, reg>>
Emit == PrintT(ToJson([s |-> View, e |-> ev', t |-> View']))
===========================================================================
