----------------------------- MODULE MCTypeLevel -----------------------------
EXTENDS TypeLevel, Json
VARIABLE st
T == {"t1", "t2", "t3"}
V == {"i0", "u2", "b1"}
KeysOf(k) == IF KeyKind[k] = "t" THEN T ELSE V
EntriesOf(k) == IF EntryKind[k] = "t" THEN {"t2", "t9"} ELSE {"i1", "i0"}
Pairs(k) == KeysOf(k) \X EntriesOf(k)
Maps(k) == UNION {[1..n -> Pairs(k)] : n \in 0..2}
Types == {<<b, m>> : b \in {"t1", "int"}, m \in {<<>>, <<"c">>, <<"v">>, <<"c", "v">>, <<"&">>, <<"c", "&">>, <<"&&">>, <<"*">>, <<"c", "*">>, <<"*", "c">>, <<"*", "&">>}}
Some == {<<"t1", <<>>>>, <<"t1", <<"c", "&">>>>, <<"int", <<"&&">>>>, <<"int", <<"*", "c">>>>}
Params == {<<"t1", <<>>>>, <<"t1", <<"c", "&">>>>, <<"int", <<"&&">>>>, <<"int", <<"*">>>>}
Cvs == {<<>>, <<"c">>, <<"v">>, <<"c", "v">>}
Refs == {<<>>, <<"&">>, <<"&&">>}
Lists == UNION {[1..n -> {"t1", "t2"}] : n \in 0..3}
VLists == UNION {[1..n -> {"i1", "u1"}] : n \in 0..3}
Seq0(k, n) == [i \in 1..n |-> k \o ToString(i - 1)]
Next ==
  \/ st = 0 /\ st' = 1 /\ Act("new", <<>>)
  \/ /\ st = 1 /\ st' = 1
     /\ \/ \E k \in DOMAIN KeyKind : \E m \in Maps(k), x \in KeysOf(k), d \in {"", "d"} :
             Act("lookup", <<k, m, x, IF d = "" THEN d ELSE IF EntryKind[k] = "t" THEN "t5" ELSE "l7">>)
        \/ \E k \in DOMAIN KeyKind : \E m \in Maps(k), x \in EntriesOf(k), d \in {"", "d"} :
             Act("rlookup", <<k, m, x, IF d = "" THEN d ELSE IF KeyKind[k] = "t" THEN "t5" ELSE "l7">>)
        \/ \E l \in Lists, n \in 0..2 : Act("ntht", <<l, n>>)
        \/ \E l \in VLists, n \in 0..2 : Act("nthv", <<l, n>>)
        \/ \E l \in Lists, f \in {"tl", "tup"} : Act("each", <<f, l>>) \/ Act("apply", <<f, l>>)
        \/ \E l \in VLists : Act("each", <<"vl", l>>) \/ Act("apply", <<"vl", l>>)
        \/ \E n \in 0..4, k \in {"i", "u", "z"}, f \in {"is", "smi", "mi"} :
             Act("each", <<f, Seq0(k, n)>>) \/ Act("apply", <<f, Seq0(k, n)>>)
        \/ \E n \in 0..4, k \in {"i", "u", "z"} : Act("gets", <<Seq0(k, n)>>)
        \/ \E cv \in Cvs, ref \in Refs, how \in {"F", "F_ne"} : \E r \in {<<"void", <<>>>>, <<"t2", <<"&">>>>} : \E n \in 0..1 : \E ps \in [1..n -> Params] :
             Act("sig", <<"member", cv, ref, how, r, ps>>)
        \/ \E how \in {"F", "F_ne", "F &", "F const &", "F &&", "F const"}, cv \in Cvs : Act("sig", <<"functor", cv, <<>>, how, <<"int", <<>>>>, <<<<"t1", <<"c", "&">>>>>>>>)
        \/ \E how \in {"fn", "fn_ne", "ref", "ref_ne", "ptr", "ptr_ne", "ptrc", "ptrv", "ptrcv", "ptrc_ne"} : \E n \in 0..2 : \E ps \in [1..n -> Params] :
             Act("sig", <<"fn", <<>>, <<>>, how, <<"t2", <<"c">>>>, ps>>)
        \/ \E how \in {"F", "F_ne", "F &", "F const &"}, f \in {"lambda", "mutable"} : \E n \in 0..2 : \E ps \in [1..n -> {<<"t51", <<>>>>, <<"int", <<"&&">>>>}] :
             Act("sig", <<f, <<>>, <<>>, how, <<"t52", <<"&">>>>, ps>>)
        \/ \E f \in 0..5, n \in 0..5 : Act("garity", <<f, n>>)
        \/ \E b \in {0, 1} : \E x, y \in Some : Act("cond", <<b, x, y>>)
        \/ \E x \in Types, d \in {<<>>, <<"t4", <<>>>>} : Act("typeor", <<x, d>>)
        \/ \E x, y \in Types : Act("sameunq", <<x, y>>)
        \/ \E n \in 0..3 : \E l \in [1..n -> Some], x \in Some : Act("anyof", <<x, l>>)
        \/ \E x, y \in {"TA", "TB"} : \E l \in Lists : Act("special", <<x, l, y>>)
        \/ \E x, y \in {"VA", "VB"} : \E l \in VLists : Act("special", <<x, l, y>>)
        \/ \E x \in Types : Act("shrink", <<x>>)
        \/ \E k \in Kinds : \E m \in {<<>>, <<"c">>, <<"&">>, <<"c", "&">>, <<"&&">>} :
             (IF k \in Functions THEN m = <<>> \/ (k # "f_const" /\ "c" \notin {m[i] : i \in 1..Len(m)}) ELSE TRUE) = TRUE /\
             (Act("callable", <<k, m>>) \/ Act("complete", <<k, m>>) \/ (m # <<"&&">> /\ Act("range", <<k, m>>)) \/ Act("protocols", <<k, m>>))
        \/ \E k \in Kinds : \E m \in {<<>>, <<"&">>, <<"c", "&">>, <<"*">>} : Act("structural", <<k, m>>)
        \/ \E f \in {"scoped", "plain", "number"}, u \in {"i8", "u8", "i16", "u16", "i32", "u32", "i64", "u64", "bool", "char"} : \E n \in {0, 1, 100} :
             (u = "bool" => n < 2) = TRUE /\ Act("under", <<f, u, n>>)
        \/ \E f \in {"scoped", "plain", "number"}, u \in {"i8", "i16", "i32", "i64"} : Act("under", <<f, u, -77>>)
Spec == Init /\ st = 0 /\ [][Next]_<<vars, st>>
View == st
Emit == PrintT(ToJson([s |-> st, e |-> ev', t |-> st']))
(* looking up a key and looking its entry up in reverse gives the key back *)
ASSUME \A k \in DOMAIN KeyKind : \A m \in Maps(k) :
         (Unique(m, 1) /\ Unique(m, 2)) => \A p \in 1..Len(m) : Look(m, 2, Look(m, 1, m[p][1], "?"), "?") = m[p][1]
ASSUME \A t \in Types : Decay(Decay(t)) = Decay(t)
===========================================================================
