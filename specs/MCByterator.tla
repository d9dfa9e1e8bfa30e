---------------------------- MODULE MCByterator ----------------------------
EXTENDS Byterator, Json
CONSTANTS Kinds
Start == <<1, 2, 3, 4, 5, 6, 7, 200>>
Next ==
  \/ kind = Void /\ \E k \in Kinds, b \in {0, 5} : (b = 0 \/ k = 0) /\ Act("new", <<k, Start, b>>)
  \/ kind # Void /\ \E c \in 1..2 :
     \/ \E op \in {"copy", "prei", "posti", "pred", "postd", "get"} : Act(op, <<c>>)
     \/ c = 1 /\ (Act("diff", <<c>>) \/ Act("rel", <<c>>))
     \/ \E k \in 0..(8 \div Elem(kind)) : Act("at", <<c, k>>) \/ Act("relit", <<c, k>>)
     \/ \E d \in {-3, -1, 0, 2, 5} : \/ \E h \in 0..1 : Act("add", <<c, d, h>>)
                                     \/ Act("sub", <<c, d>>) \/ Act("plus", <<c, d>>) \/ Act("minus", <<c, d>>)
                                     \/ Act("index", <<c, d>>)
     \/ \E v \in {"u8", "u16", "u32", "u64"}, h \in 0..1 :
          \/ Act("skip", <<c, v, h>>) \/ Act("peek", <<c, v, "same", h>>) \/ Act("read", <<c, v, "same", h>>)
     \/ \E v \in {"u16", "u32", "u64"}, n \in {-1, 0, 1} : Act("align", <<c, v, n>>)
Spec == Init /\ [][Next]_vars
View == <<kind, base, buf, pos>>
Emit == PrintT(ToJson([s |-> View, e |-> ev', t |-> View']))
===========================================================================
