------------------------------ MODULE MCFormat ------------------------------
EXTENDS Format, Json
VARIABLE st
Texts == {<<>>, <<"a">>, <<"{", "{">>, <<"}", "}", ":">>, <<"{", "{", "{", "{", "b", "}", "}">>}
Fields == {<<"{", "}">>, <<"{", ":", "x", "}">>, <<"{", "n", "}">>, <<"{", "n", ":", "x", "}">>}
Inner == {<<"nest", c, <<"<", "{", "k", "}", ">">>, <<x>>>> : c \in {0, 1}, x \in {<<"rt", "int", 3>>, <<"int", 42, "int">>}}
Args == {<<"rt", "int", 5>>, <<"rt", "pair", 6>>, <<"int", 17, "int">>, <<"int", -255, "short">>, <<"bool", 1>>, <<"chr", "z">>,
         <<"str", <<"h", "i">>, 1>>, <<"type", 1>>, <<"enum", 2>>} \cup Inner
Strings == UNION {[1..n -> {"a", "b"}] : n \in 0..3} \cup {<<"NUL">>, <<"a", "NUL", "b">>, <<"{", "}">>}
Short == UNION {[1..n -> {"a", "b"}] : n \in 0..2} \cup {<<"a", "NUL">>}
Chars == UNION {[1..n -> {"{", "}", "a"}] : n \in 0..6}
Next ==
  \/ st = 0 /\ st' = 1 /\ Act("new", <<>>)
  \/ /\ st = 1 /\ st' = 1
     /\ \/ \E t \in Texts : Act("format", <<1, t, <<>>>>)
        \/ \E t, u \in Texts, f \in Fields, x \in Args, h \in 1..3 : Act("format", <<h, t \o f \o u, <<x>>>>)
        \/ \E t, u \in {<<>>, <<"a">>}, f, g \in Fields, x, y \in Args : Act("format", <<1, t \o f \o u \o g \o t, <<x, y>>>>)
        \/ \E f \in Chars : Act("count", <<f>>)
        \/ \E s, t \in Short, k \in 1..3 : Act("cat", <<<<s, t>>, k>>)
        \/ \E s \in Strings, c \in {"a", "b", "NUL"} : Act("split", <<s, c>>)
        \/ \E s, t \in Short : Act("same", <<s, t>>)
        \/ \E s \in Strings : Act("show", <<s>>)
Spec == Init /\ st = 0 /\ [][Next]_<<vars, st>>
View == st
Emit == PrintT(ToJson([s |-> st, e |-> ev', t |-> st']))
===========================================================================
