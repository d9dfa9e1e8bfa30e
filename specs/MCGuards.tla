------------------------------- MODULE MCGuards -------------------------------
EXTENDS Guards, Json
VARIABLE st
Exts == {Dyn, 0, 1, 3}
Sizes == {0, 1, 2, 3, 4, -2, -3}
Scalars == Integers \cup Floats \cup Enums \cup {"bool", "ptr", "agg", "eqo"}
Types == {"int", "str", "agg", "eqo"}
Lists(S, n) == UNION {[1..k -> S] : k \in 0..n}
Sources == {<<k, n, c>> : k \in {"array", "carray", "span"}, n \in {1, 3}, c \in {0, 1}} \cup {<<k, 0, c>> : k \in {"dynspan", "vector"}, c \in {0, 1}}
Parts == {<<"float">>, <<"int">>, <<"ptr">>, <<"agg">>}
(* what is asked of the rules themselves *)
Tuples2 == Lists({"int", "double", "str", "eqo", "agg"}, 2)
ASSUME \A l, r \in Tuples2 : /\ Compares("eq", l, r) = Compares("eq", r, l)
                             /\ Compares("lt", l, r) => Compares("eq", l, r)
                             /\ Compares("eq", l, r) => Len(l) = Len(r)
ASSUME \A x, y, z \in Sizes \cup {Dyn} : /\ SumLe(x, y, z) = SumLe(y, x, z)
                                         /\ SumLe(x, y, z) => Le(x, z) /\ Le(y, z)
                                         /\ SumLe(x, 0, z) = Le(x, z)
ASSUME \A e, f \in Exts, s \in Sources : SpanFits(e, s) /\ f # Dyn /\ Le(f, e) /\ e # Dyn => SpanFits(f, s)  \* a shorter span fits where a longer one does
ASSUME \A n \in {<<x, y>> : x, y \in {"", "self", "other"}} : Linkable("double", n) => Linkable("single", n)
ASSUME \A t \in Scalars, o \in {"fetch_and", "|="} : AtomicOp(o, t) => AtomicOp("fetch_add", t)
Next ==
  \/ st = 0 /\ st' = 1 /\ Act("new", <<>>)
  \/ /\ st = 1 /\ st' = 1
     /\ \/ \E e \in Exts, n \in Sizes, w \in {"first", "last"} : n # -1 /\ Act(w, <<e, n>>)
        \/ \E e \in Exts, o \in Sizes, n \in Sizes \cup {Dyn} : Act("sub", <<e, o, n>>)
        \/ \E e \in Exts, n \in 0..4 : Act("sget", <<e, n>>) \/ Act("selem", <<e, n>>)
        \/ \E e \in {Dyn, 1, 2, 3}, c \in {0, 1}, s \in Sources, i \in {0, 1} : Act("span", <<e, c, s, i>>)
        \/ \E e \in {Dyn, 3}, c \in {0, 1} : Act("wbytes", <<e, c>>)
        \/ \E c \in {"vector", "dynspan", "string", "int", "array", "span", "cx_vector", "cx_set", "cx_map", "cx_queue", "carray", "stdspan", "cx_multimap"} :
             \E const \in {0, 1} : \E how \in {"type", "value"} : Act("capacity", <<c, const, how>>)
        \/ \E ts \in Lists({"int"}, 3), i \in 0..4, w \in {"tget", "tindex"}, c \in {"l", "c", "r"} : (Len(ts) = i \/ c = "l") /\ Act(w, <<ts, i, c>>)
        \/ \E ts \in Lists(Types, 2) \cup {<<"agg", "eqo", "int">>}, t \in Types, w \in {"tkey", "tmember"}, c \in {"l", "c", "r"} : (Len(ts) = 1 \/ c = "l") /\ Act(w, <<ts, t, c>>)
        \/ \E n \in {<<>>, <<1>>, <<1, 2>>, <<3, 1, 2>>}, m \in 0..4, c \in {"l", "c", "r"} : Act("tname", <<n, m, c>>)
        \/ \E w \in {"eq", "lt", "spaceship"}, l, r \in Lists({"int", "double", "str", "eqo"}, 1) \cup {<<"int", "int">>, <<"int", "agg">>} : Act("tcompare", <<w, l, r>>)
        \/ \E w \in {"eq", "lt", "spaceship"}, l \in Lists({"int"}, 2) \cup {<<"str">>}, t \in {"int", "str", "double"}, s \in {0, 1} : Act("tother", <<w, l, s, t>>)
        \/ \E n, m \in 0..3 : Act("tapply", <<n, m>>) \/ Act("tbind", <<n, m>>)
        \/ \E n \in 0..2, i \in {0, 1} : Act("tjoin", <<n, i>>)
        \/ \E ts \in Lists({"int", "mov", "str"}, 2) : Act("tcopy", <<ts>>)
        \/ \E w \in {"for_each", "enumerate", "all_of", "any_of", "none_of"}, u \in {0, 1},
              ks \in Lists({"array", "span", "tuple", "pair", "std"}, 1) \cup Lists({"array", "tuple"}, 2) : Act("tlist", <<w, u, ks>>)
        \/ \E t \in Integers \cup Floats : Act("bstore", <<t>>)
        \/ \E n \in {1, 8, 9, 16, 17, 32, 33, 64, 65}, t \in Integers \cup Enums : Act("bto", <<n, t>>)
        \/ \E n \in {1, 63, 64, 65, 128} : Act("bnatural", <<n>>)
        \/ \E ts \in Lists(Scalars, 1) \cup {<<"int", "double">>, <<"int", "es8", "uint">>} : Act("bplace", <<ts>>)
        \/ \E w \in {"set", "reset", "flip", "test"}, e \in Enums, x \in Enums : Act("benum", <<w, e, x>>)
        \/ \E n, m \in 1..5 : Act("btext", <<n, m>>)
        \/ \E w \in {"set", "reset", "flip", "make"}, ls \in Lists({"int", "char", "str"} \ {"char"}, 2) \cup {<<"int", "bool", "str">>},
              ts \in {<<"int">>, <<"str">>, <<"bool">>, <<"int", "str">>, <<"bool", "int">>} : Act("btypes", <<w, ls, ts>>)
        \/ \E ls \in {<<"int">>, <<"int", "str">>}, t \in {"int", "str", "bool"} : Act("btypes", <<"test", ls, <<t>>>>)
        \/ \E w \in {"to_le", "to_be", "from_le", "from_be"}, t \in Integers \cup Floats \cup Enums : Act("order", <<w, t>>)
        \/ \E w \in {"popcount", "countl_zero", "countr_zero", "countl_one", "countr_one", "has_single_bit", "bit_width", "bit_ceil", "bit_floor"},
              t \in {"int", "uint", "uchar", "schar", "double", "es8"} : Act("count", <<w, t>>)
        \/ \E t, u \in {"uchar", "ushort", "uint", "int", "schar", "double"} : Act("unpack", <<t, u>>)
        \/ \E t \in {"uchar", "ulong", "int", "double", "wide"}, m, l \in {0, 7, 8, 23, 24, 63, 64} : Act("mask", <<t, m, l>>)
        \/ \E t \in {"ushort", "uint", "ulong", "int", "double"}, n \in {0, 1, 3, 5, 9}, u \in {"uchar", "ushort"} : Act("pack", <<t, n, u>>)
        \/ \E c \in {<<"ushort", 2, "uchar">>, <<"uint", 2, "ushort">>, <<"uint", 4, "uchar">>, <<"ulong", 2, "uint">>, <<"ulong", 4, "ushort">>, <<"ulong", 8, "uchar">>} : Act("pack", c)
        \/ \E n \in {1, 8, 9, 32, 33, 64, 65}, t \in {"uchar", "uint", "ulong", "int", "schar", "double"} : Act("abits", <<n, t>>)
        \/ \E n \in {1, 8, 9, 16, 17, 32, 33, 64}, t \in Integers \cup Enums : Act("abto", <<n, t>>)
        \/ \E n, m \in 1..5 : Act("abtext", <<n, m>>)
        \/ \E t \in Scalars \cup {"str", "owner", "mov"} : Act("atype", <<t>>)
        \/ \E w \in {"value to atomic", "atomic to value", "value to optional", "nullopt to optional", "optional to bool", "number to bitset", "text to bitset", "atomic_bitset to bitset",
                     "number to atomic_bitset", "number to type_bitset", "number to rollover", "rollover to number", "iterator to byterator",
                     "element to cx_vector", "element to cx_set", "element to cx_map", "function to latched", "latched to bool", "ct_string to string_view"}, s \in {0, 1}, n \in {1, 8, 9, 32, 33, 64, 65} :
              (n < 65 \/ w \in {"number to bitset", "text to bitset"}) /\ Act("convert", <<w, s, n>>)
        \/ \E c \in {"cx_vector", "cx_queue", "single", "double"}, n, k \in 0..3 : Act("drain", <<c, n, k>>)
        \/ \E c \in {"cx_map", "cx_queue front", "cx_queue back"}, ks \in {<<>>, <<1>>, <<2, 1>>, <<3, 1, 2>>}, i \in 0..4 :
              (c = "cx_map" \/ (i = 1 /\ (ks = <<>> \/ Len(ks) = 1))) /\ Act("lookup", <<c, ks, i>>)
        \/ \E l \in {"single", "double"}, n \in 1..3 : Act("relink", <<l, n>>)
        \/ \E e, d \in {0, 1} : Act("expand", <<e, d>>)
        \/ \E k \in {"pair", "array", "sequence", "sequence get", "number sequence", "number sequence get"}, n, i \in 1..4 : (k # "pair" \/ n = 2) /\ Act("elem", <<k, n, i - 1>>)
        \/ \E t \in Scalars, w \in {"as_signed", "as_unsigned", "aligned"} : Act(w, <<t>>)
        \/ \E t \in Integers \cup Floats \cup Enums : Act("roll", <<t>>)
        \/ \E w \in {"==", "!=", "<", "<=", ">", ">=", "+", "-", "*", "/", "%", "+=", "-=", "cmp_less"}, t, u \in {"uint", "uchar"}, p \in {0, 1} : Act("rollop", <<w, t, u, p>>)
        \/ \E w \in {"load", "store", "exchange", "assign", "read", "fetch_add", "fetch_sub", "+=", "-=", "++x", "x++", "--x", "x--", "fetch_and", "fetch_or",
                     "fetch_xor", "&=", "|=", "^=", "copy", "copy assign", "move"}, t \in {"int", "ulong", "bool", "es8", "agg", "uchar"} : Act("atomic", <<w, t>>)
        \/ \E c \in {"cx_vector", "cx_set", "cx_map"}, n \in 1..3, k \in 0..4 : Act("fill", <<c, n, k>>)
        \/ \E c \in {"cx_vector", "cx_set", "cx_map", "cx_multimap"}, n \in 1..3, k \in 0..4 : Act("grow", <<c, n, k>>)
        \/ \E l \in {"single", "double"}, n, p \in {"", "self", "other"}, y \in {"checked", "unchecked"} : Act("node", <<l, <<n, p>>, y>>)
        \/ \E t \in Scalars, w \in {"no", "traits", "param"} : Act("optional", <<<<t>>, w>>)
        \/ \E t, u \in Parts : Act("optional", <<<<"pair", t, u>>, "no">>)
        \/ \E n \in {<<>>, <<1>>, <<1, 2>>, <<3, 1, 2>>}, m \in 0..4 : Act("env", <<n, m>>)
        \/ \E w \in {"read", "peek", "write"}, t \in Scalars \cup {"str", "owner"} : Act("bytes", <<w, t>>)
        \/ \E n, m \in 0..4 : Act("format", <<n, m>>)
        \/ \E n, m \in 0..2 : Act("ctresult", <<n, m>>)
        \/ \E b \in {"dec", "oct", "bin", "hex"}, s \in {<<"1">>, <<"1", "0">>, <<"1", "7">>, <<"1", "9">>, <<"1", "a">>, <<"1", ".", "5">>, <<"1", "e", "3">>, <<"F", "f">>} :
              (b # "dec" \/ s # <<"F", "f">>) /\ Act("literal", <<b, s>>)
        \/ \E c \in {0, 1}, s \in {<<"plain">>, <<"a ", " b">>, <<"", " of ", "">>} : Act("assert", <<c, s, SubSeq(<<"one", "two">>, 1, Len(s) - 1)>>)
        \/ \E n \in 1..3, m \in 0..7, g \in {0, 1} : Act("batches", <<n, m, g>>)
        \/ \E f \in Lists({"agg", "str"}, 2), g \in {<<>>, <<"str">>}, as \in Lists({"agg", "str"}, 3) : Act("need", <<<<f, g>>, as>>)
        \/ \E k \in {"types", "values", "list", "int", "class"} : Act("each", <<k>>)
        \/ \E n \in 1..4, i \in 0..5, w \in {"ntht", "nthv"} : Act(w, <<n, i>>)
Spec == Init /\ st = 0 /\ [][Next]_<<vars, st>>
View == st
Emit == PrintT(ToJson([s |-> st, e |-> ev', t |-> st']))
===========================================================================
