----------------------------- MODULE MCCallables -----------------------------
EXTENDS Callables, Json
VARIABLE st
Cats == {"l", "r"}
BCats == {"l", "r", "f"}
Lists(cs, n, base) == UNION {{[i \in 1..k |-> <<"A", base + i, c[i]>>] : c \in [1..k -> cs]} : k \in 0..n}
Stateless ==
  \/ \E n \in 1..3, l \in 0..1, m \in 0..2 : \E c \in [1..(n * m) -> Cats] : n * m <= 4 /\ Act("batch", <<n, l, [i \in 1..(n * m) |-> <<"A", i, c[i]>>]>>)
  \/ \E k \in 0..3, c \in 0..1 : Act("lazy", <<k, c>>)
  \/ \E alts \in {<<"A", "B">>, <<"B", "*">>, <<"*", "A", "B">>, <<"A">>}, x \in {"A", "B", "C"} : Act("over", <<alts, x>>)
  \/ \E t, u \in {"l", "c", "r", "x"} : Act("like", <<t, u>>)
  \/ \E c \in {"l", "c", "r"} : Act("ident", <<<<"A", 3, c>>>>)
  \/ \E c \in {"l", "c"}, h \in 0..3 : Act("deref", <<<<"A", 3, c>>, h>>)
  \/ \E v \in {-3, 0, 7}, h \in 0..1 : Act("plus", <<v, h>>)
Next ==
  \/ st = 0 /\ st' = 1 /\ Act("new", <<>>)
  \/ /\ st = 1
     /\ \/ st' = 1 /\ Stateless
        \/ st' = 2 /\ \E k \in 1..4, t \in 0..1, r \in 0..2, xs \in Lists(BCats, 2, 10) : Act("bind", <<k, t, r, xs>>)
  \/ /\ st = 2 /\ st' = 2
     /\ \/ \E c \in {"l", "c", "r"}, xs \in Lists(Cats, 1, 20) \cup {<<<<"B", 31, "l">>, <<"A", 32, "c">>>>} : b.cnt < 2 /\ Act("call", <<c, xs>>)
        \/ \E i \in 1..Len(src) : b.from[i][3] # "r" /\ src[i] < 90 /\ Act("poke", <<i, 90 + i>>)
        \/ \E h \in 0..1 : Act("copy", <<h>>)
Spec == Init /\ st = 0 /\ [][Next]_<<vars, st>>
View == <<st, b, src>>
Emit == PrintT(ToJson([s |-> View, e |-> ev', t |-> View']))
===========================================================================
