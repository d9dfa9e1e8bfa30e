----------------------------- MODULE MCOptional -----------------------------
EXTENDS Optional, Json
CONSTANTS Kinds, Vals
Next ==
  \/ kind = Void /\ \E k \in Kinds : Act("new", <<k>>)
  \/ kind # Void /\
     \/ \E r \in 1..2 :
        \/ \E op \in {"ctor_none", "ctor_nullopt", "assign_nullopt", "reset"} : Act(op, <<r>>)
        \/ \E v \in Vals : \/ \E op \in {"ctor_val", "ctor_inplace", "assign_val", "emplace"} : Act(op, <<r, v>>)
                           \/ \E w \in 0..2 : Act("write", <<r, v, w>>)
                           \/ \E c \in 0..1 : Act("value_or", <<r, c, v>>) \/ Act("or_else", <<r, c, v>>)
        \/ \E q \in 1..2, op \in {"copy_ctor", "copy_assign", "move_ctor", "move_assign"} : Act(op, <<r, q>>)
        \/ \E c \in 0..3, k \in {1, 15}, op \in {"transform", "and_then", "pipe"} : Act(op, <<r, c, k>>)
     \/ \E q1, q2 \in 1..2, c1, c2 \in {0, 1, 2} : Act("mtransform", <<<<<<q1, c1>>, <<q2, c2>>>>, 3>>)
Spec == Init /\ [][Next]_vars
View == <<kind, reg>>
Emit == PrintT(ToJson([s |-> View, e |-> ev', t |-> View']))
===========================================================================
