----------------------------- MODULE MCTupleAlgos -----------------------------
EXTENDS TupleAlgos, Json
VARIABLE st
Vals(s, k) == [i \in 1..Len(s) |-> <<s[i], k + (3 * i)>>]
Shapes(L, m, n) == UNION {[1..k -> L] : k \in m..n}
T3 == {Vals(s, 10) : s \in Shapes({"A", "B", "C"}, 0, 3)}
T4 == {Vals(s, 10) : s \in Shapes({"A", "S"}, 4, 4)}
T2 == {Vals(s, 10) : s \in Shapes({"A", "S"}, 0, 2)}
U2 == {Vals(s, 30) : s \in Shapes({"B", "I"}, 0, 2)}
Pairs == {<<t, u>> : t \in T2, u \in U2}
C2 == {<<"l", "l">>, <<"c", "r">>, <<"r", "l">>, <<"r", "r">>}
Next ==
  \/ st = 0 /\ st' = 1 /\ Act("new", <<>>)
  \/ /\ st = 1 /\ st' = 1
     /\ \/ \E t \in T3 \cup T4, c \in Cats : \E op \in {"filter", "unique", "sset", "uset"} : Act(op, <<t, c>>)
        \/ \E t \in T3 \cup T4, c \in {"l", "r"}, p \in 0..1 : \E op \in {"chunk", "sort", "gather"} : Act(op, <<t, c, p>>)
        \/ \E p \in Pairs, c \in C2 : \E op \in {"cat", "applyn", "cartc"} : Act(op, <<p, c>>)
        \/ \E p \in Pairs, c \in {<<"l", "l">>, <<"c", "l">>} : Act("cart", <<p, c>>)
        \/ \E p \in Pairs, c \in C2, h \in {0, 1} : \E op \in {"trans", "each", "enum"} : Act(op, <<p, c, h>>)
        \/ \E t \in T3, c \in Cats, h \in 0..3 : \E op \in {"trans", "each", "enum"} : (op = "enum" => h < 2) /\ (op = "trans" => h # 2) /\ Act(op, <<<<t>>, <<c>>, h>>)
        \/ \E t \in T3, k \in {0, 13, 16, 19, 99} : \E op \in {"all", "any", "none"} : Act(op, <<<<t>>, <<"l">>, k, 0>>)
        \/ \E p \in Pairs, k \in {0, 43, 47, 99} : \E op \in {"all", "any", "none"} : Act(op, <<p, <<"c", "l">>, k, 0>>)
        \/ \E t \in T2, c \in Cats, e \in {<<"B", 5>>, <<"S", 6>>}, d \in {"l", "r"}, h \in 0..2 :
             \E op \in {"cons", "snoc"} : Act(op, <<t, c, e, d, h>>)
        \/ \E t \in T3, l \in {"A", "C", "D"} : Act("contains", <<t, l>>)
        \/ \E op \in {"cat", "cart", "cartc"} : Act(op, <<<<>>, <<>>>>)
        \/ \E t \in T2 : \E op \in {"cat", "cart", "cartc", "applyn"} : Act(op, <<<<t>>, <<"l">>>>)
        \/ \E t \in T2 : \E op \in {"cat", "cartc", "applyn"} : Act(op, <<<<t>>, <<"r">>>>)
Spec == Init /\ st = 0 /\ [][Next]_<<vars, st>>
View == st
Emit == PrintT(ToJson([s |-> st, e |-> ev', t |-> st']))
(* nothing is lost or invented *)
Bag(t) == [e \in Range(t) |-> Cardinality({i \in 1..Len(t) : t[i] = e})]
ASSUME \A t \in T3 \cup T4, p \in 0..1 :
         /\ Concat(Chunk(p, t)) = t
         /\ \A s \in Sorts(p, t) : Bag(s) = Bag(t) /\ \A i \in 1..(Len(s) - 1) : Rank(p, s[i]) <= Rank(p, s[i + 1])
         /\ Len(FirstOfEach(t, {})) = Cardinality({e[1] : e \in Range(t)})
ASSUME \A p \in Pairs : Len(Product(p)) = Len(p[1]) * Len(p[2])
===========================================================================
