------------------------------- MODULE MCAccess -------------------------------
EXTENDS Access, Json
VARIABLE st
Kinds == {"l", "c", "r"}
Of(t) == CASE t = "tuple" -> {"int", "str", "mov", "int &", "const int &"} [] t \in Views -> {"int", "const int"} [] t \in Lists -> {"node"} [] t \in {"cx_set", "cx_map", "cx_multimap"} -> {"int"}
           [] t = "optional" -> {"float", "ptr"} [] OTHER -> {"int", "str"}
Contained == {<<"tuple", s>> : s \in UNION {[1..n -> Elems] : n \in 0..2}} \cup {<<t, <<e>>>> : t \in {"cx_vector", "cx_queue", "indexed_tuple"}, e \in {"int", "str", "mov", "eqo", "agg"}}
             \cup {<<"cx_set", <<"int">>>>, <<"cx_map", <<"int", "str">>>>, <<"cx_map", <<"int", "int">>>>, <<"atomic", <<"int">>>>, <<"bitset", <<>>>>, <<"type_bitset", <<>>>>, <<"rollover", <<>>>>,
              <<"optional", <<"float">>>>, <<"optional", <<"ptr">>>>, <<"byterator", <<"int">>>>, <<"byterator", <<"const int">>>>, <<"span", <<"int">>>>, <<"span", <<"const int">>>>, <<"fixed span", <<"int">>>>}
ASSUME \A t \in Contained : (Does(t, "copy") => Does(t, "move")) /\ (Does(t, "<=>") => Does(t, "=="))
Ty == {<<"int", 0, "">>, <<"str", 0, "">>, <<"int", 1, "">>, <<"int", 0, "&">>, <<"int", 1, "&">>, <<"str", 0, "&">>}
Lists2 == UNION {[1..n -> Ty] : n \in 0..2}
Lists3 == Lists2 \cup [1..3 -> {<<"int", 0, "">>, <<"int", 1, "">>, <<"str", 0, "">>, <<"int", 0, "&">>}]
ASSUME \A l \in Lists3 : l # <<>> => /\ Counts("gather", l)[1] = Counts("sorted set", l)[1]
                                     /\ \A i \in 2..Len(l) + 1 : Counts("sort", l)[i] = Counts("gather", l)[i]
Decaying == {<<"arr", 0, "&">>, <<"arr", 1, "&">>, <<"fun", 0, "&">>}
Small == {<<>>, <<<<"int", 0, "">>>>, <<<<"str", 1, "&">>>>, <<<<"int", 0, "&">>, <<"str", 0, "">>>>}
(* no algorithm that only moves elements about changes what an element is *)
ASSUME \A alg \in {"tail", "filter", "chunk", "unique", "set", "members"}, l \in Lists2 : l # <<>> =>
          LET x == Result(alg, "l", l, <<>>) y == IF alg = "chunk" THEN FoldLeft(LAMBDA p, q : p \o q, <<>>, x) ELSE x
          IN \A i \in 1..Len(y) : \E j \in 1..Len(l) : y[i] = l[j]
ASSUME \A l, m \in Lists2 : Len(Result("product", "l", l, m)) = Len(l) * Len(m)
(* through a const owner nothing is handed out that can be changed; what can be taken from a const object can be taken from any *)
ASSUME \A t \in Owners \cup Lazy, e \in {"int", "str", "const int &"} : \A x \in Has(t) : Gives(t, e, x, "c") \in {"c", "value", "none"}
ASSUME \A t \in Owners \cup Lazy \cup Views \cup Lists : \A e \in Of(t), x \in Has(t) : Gives(t, e, x, "c") # "none" => Gives(t, e, x, "l") # "none"
ASSUME \A t \in DOMAIN Changes : Changes[t] \cap Answers[t] = {}
Next ==
  \/ st = 0 /\ st' = 1 /\ Act("new", <<>>)
  \/ /\ st = 1 /\ st' = 1
     /\ \/ \E t \in Owners \cup Lazy \cup Views \cup Lists : \E e \in Of(t), x \in Has(t), k \in Kinds :
              (t \in {"span", "fixed span"} => k # "r") /\ Act("read", <<t, e, x, k>>)
        \/ \E t \in DOMAIN Changes \cup {"forward list", "fixed span"} :
              LET u == CASE t = "forward list" -> "list" [] t = "fixed span" -> "span" [] OTHER -> t IN
                \E m \in Changes[u] \cup Answers[u], k \in {"l", "c"} : Act("call", <<t, m, k>>)
        \/ \E alg \in Algs, k \in Kinds, l \in Lists2 : \E m \in (CASE alg \in {"cat", "product", "product_copy"} -> Small
                 [] alg \in {"cons", "push_front", "snoc", "push_back"} -> {<<x>> : x \in Ty \cup Decaying} [] OTHER -> {<<>>}) :
              (alg \in {"cons", "push_front", "snoc", "push_back"} => Len(l) <= 1) /\ Sane(alg, k, l, m) /\ Act("result", <<alg, k, l, m>>)
        \/ \E alg \in {"make", "forward", "deduce"}, x \in Decaying, y \in Ty \cup Decaying : Act("result", <<alg, "l", <<x, y>>, <<>>>>)
        \/ \E alg \in Regroups, k \in Kinds, l \in Lists3 : Act("regroup", <<alg, k, l>>)
        \/ \E t \in Contained, w \in Traits : Act("able", <<t, w>>)
        \/ \E t \in {"cx_vector", "cx_set", "cx_map", "cx_multimap", "span", "fixed span"} \cup Lists, c \in {0, 1}, w \in DOMAIN Rank : Act("walk", <<t, c, w>>)
        \/ \E t \in {"cx_vector", "cx_set", "cx_map", "cx_multimap", "span", "fixed span"} \cup Lists, c, d \in {0, 1} : Act("iconv", <<t, c, d>>)
Spec == Init /\ st = 0 /\ [][Next]_<<vars, st>>
View == st
Emit == PrintT(ToJson([s |-> st, e |-> ev', t |-> st']))
===========================================================================
