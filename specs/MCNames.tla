------------------------------- MODULE MCNames -------------------------------
EXTENDS Names, Json
VARIABLE st
N(x) == <<"n", x>>
V(x) == <<"v", x>>
Named == {N("int"), N("nm::pt"), N("nm::en")}
Vals == {V("5"), V("'='"), V("'<'"), V("true"), V("nm::en::two")}
Spec1 == {<<"t", "nm::box", as>> : as \in UNION {[1..n -> Named] : n \in 0..2}} \cup {<<"t", "nm::val", <<v>>>> : v \in Vals}
         \cup {<<"t", "nm::both", <<x, v>>>> : x \in Named, v \in Vals}
Spec2 == {<<"t", "nm::box", <<s>>>> : s \in Spec1} \cup {<<"t", "nm::outer", <<s>>>> : s \in Spec1}
Over(S) == {<<k, s>> : k \in {"c", "*", "&", "&&"}, s \in S}
Types == Named \cup Spec1 \cup Spec2 \cup Over(Named \cup Spec1) \cup {<<"c", <<"*", s>>>> : s \in Named \cup Spec1}
         \cup {<<"m", <<"t", "nm::outer", <<s>>>>, "in">> : s \in Named \cup Spec1}
         \cup {<<"l", <<s>>, "local">> : s \in Named \cup Spec1}
         \cup {<<"a", s, 3>> : s \in Named \cup Spec1}
         \cup {<<"f", s, <<x>>>> : s \in Named \cup Spec1, x \in Named}
Enums == {<<N("nm::en"), "one", 0>>, <<N("nm::en"), "two", 1>>, <<N("nm::en"), "", 7>>, <<N("nm::un"), "ub", 1>>}
         \cup {<<<<"m", <<"t", "nm::outer", <<s>>>>, "e">>, "y", 1>> : s \in Named \cup Spec1}
         \cup {<<<<"m", <<"t", "nm::outer", <<s>>>>, "e">>, "", 9>> : s \in Named \cup Spec1}
         \cup {<<<<"l", <<s>>, "e">>, "y", 1>> : s \in Named \cup Spec1}
Next ==
  \/ st = 0 /\ st' = 1 /\ Act("new", <<>>)
  \/ /\ st = 1 /\ st' = 1
     /\ \/ \E t \in Types : Act("type", <<t>>)
        \/ \E t \in Types : Act("base", <<t>>)
        \/ \E t \in Named \cup Spec1 : Act("fmt", <<t>>)
        \/ \E s, t \in Spec1 : Act("same", <<s, t>>)
        \/ \E e \in Enums : Act("enum", e)
        \/ \E e \in Enums : Act("fmtenum", e)
Spec == Init /\ st = 0 /\ [][Next]_<<vars, st>>
View == st
Emit == PrintT(ToJson([s |-> st, e |-> ev', t |-> st']))
===========================================================================
