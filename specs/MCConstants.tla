----------------------------- MODULE MCConstants -----------------------------
EXTENDS Constants, Json
VARIABLE st
Kinds == DOMAIN Bytes
Ds(b) == IF b = 16 THEN {0, 9, 10, 15} ELSE IF b = 10 THEN {0, 1, 9} ELSE IF b = 8 THEN {0, 1, 7} ELSE {0, 1}
Nums(b) == UNION {[1..n -> Ds(b)] : n \in 1..2}
(* the largest number of n bytes *)
Big(n, b) == IF b = 16 THEN [i \in 1..(2 * n) |-> 15] ELSE IF b = 2 THEN [i \in 1..(8 * n) |-> 1]
             ELSE IF b = 8 THEN [i \in 1..((8 * n) \div 3) |-> 7] ELSE [i \in 1..(2 * n) |-> 9]
T9 == {"b", "c", "h", "s", "t", "i", "u", "l", "m"}
T8 == T9 \ {"b"}
Item(t) == <<t, 1>>
Lists == UNION {[1..n -> T9] : n \in 0..2}
OfLists == {[i \in 1..Len(l) |-> Item(l[i])] : l \in Lists}
Exprs == {"lit", "const", "cx", "cxs", "tpl", "nsc", "sum", "cxv", "ic", "var", "ns"}
Ws == {<<0>>, <<1>>, <<127>>, <<128>>, <<255>>}
Next ==
  \/ st = 0 /\ st' = 1 /\ Act("new", <<>>)
  \/ /\ st = 1 /\ st' = 1
     /\ \/ \E k \in Kinds, b \in {2, 8, 10, 16} : \E ds \in Nums(b), up \in {0, 1} :
             Act("numeral", <<k, b, ds, IF Len(ds) = 2 /\ up = 0 THEN <<1>> ELSE <<>>, up>>)
        \/ \E k \in Kinds, b \in {2, 8, 10, 16} : Act("numeral", <<k, b, Big(Bytes[k], b), <<>>, 0>>)
        \/ \E s \in DOMAIN Factor, ds \in Nums(10) : Act("scaled", <<s, ds>>)
        \/ \E s \in DOMAIN Factor : Act("scaled", <<s, [i \in 1..(19 - 3 * Len(Factor[s])) |-> IF i % 2 = 0 THEN 9 ELSE 8]>>)
        \/ \E f \in {"lsb", "msb", "len"}, n \in {0, 1, 7, 31, 63, 100} : Act("field", <<f, n>>)
        \/ \E n \in 0..9, s \in {"", "x"} : Act("small", <<n, s>>)
        \/ \E f \in {"b", "true", "false"}, s \in {"", "text"} : Act("flag", <<f, s>>)
        \/ \E l \in OfLists, t \in {""} \cup T9 : Act("list", <<t, l>>)
        \/ \E f \in {"tseq", "fseq"}, t \in T8, l \in UNION {[1..n -> {0, 3, 5}] : n \in 0..3} : Act("gen", <<f, t, l>>)
        \/ \E f \in {"tn", "fn"}, t \in T8, n \in 0..6 : Act("gen", <<f, t, [i \in 1..n |-> i - 1]>>)
        \/ \E n \in 0..24 : Act("pmap", <<n>>)
        \/ \E n \in 0..4, v \in {SetToSeq(x) : x \in SUBSET (0..4)} : Act("prio", <<n, v>>)
        \/ \E m \in {"CX_VALUE", "CX_WRAP", "CT_WRAP"}, x \in Exprs, t \in T9 \cup {"e"} : Act("wrap", <<m, x, t, 1>>)
        \/ \E m \in {"CX_VALUE", "CX_WRAP"}, t \in T9 \cup {"e", "v"} : Act("wraptype", <<m, t>>)
        \/ \E t \in T9 \cup {"e"}, v \in {0, 1} : Act("ct", <<t, v>>)
        \/ \E t \in T9 \cup {"e", "v"} : Act("cttype", <<t>>)
        \/ \E k \in {1, 2, 4, 8, 16}, v \in (-17)..33 : Act("aligned", <<k, v>>)
        \/ \E f \in {"as_unsigned", "as_signed"}, t \in T8, w \in Ws : Act("sign", <<f, t, [i \in 1..Size[t] |-> w[1]]>>)
Spec == Init /\ st = 0 /\ [][Next]_<<vars, st>>
View == st
Emit == PrintT(ToJson([s |-> st, e |-> ev', t |-> st']))
(* laws of the numerals *)
ASSUME \A b \in {2, 8, 10, 16} : \A ds \in Nums(b) : Numeral(4, b, <<0>> \o ds) = Numeral(4, b, ds)
ASSUME \A ds \in Nums(16) : \A d \in {0, 9, 15} : Numeral(8, 16, Append(ds, d)) = AddW(ScaleW(Numeral(8, 16, ds), 16), SmallW(8, d))
ASSUME Numeral(8, 10, <<2, 5, 6>>) = Numeral(8, 16, <<1, 0, 0>>) /\ Numeral(8, 8, <<4, 0, 0>>) = Numeral(8, 16, <<1, 0, 0>>)
ASSUME \A x, y \in T9 : Common(x, y) = Common(y, x)
ASSUME \A t \in T8 : CounterS[Counter[t]] = CounterS[t] /\ Size[Counter[t]] = Size[t]
===========================================================================
