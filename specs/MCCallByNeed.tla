---------------------------- MODULE MCCallByNeed ----------------------------
EXTENDS CallByNeed, Json
VARIABLE st
P(t) == <<t, "c", 0>>
D(t) == <<t, "c", 1>>
Sigs == {<<>>, <<P("A")>>, <<P("B")>>, <<P("A"), P("B")>>, <<P("B"), P("A")>>, <<P("A"), P("A")>>, <<P("A"), D("B")>>,
         <<D("A"), D("B")>>, <<P("I")>>, <<P("*")>>, <<P("*"), P("B")>>, <<<<"...", "", 0>>>>}
Funs == {<<1, <<s>>>> : s \in Sigs} \cup {<<0, <<<<P("B")>>>>>>, <<2, <<<<P("A")>>>>>>, <<1, <<<<P("A")>>, <<P("A"), P("B")>>>>>>}
Letters == {"A", "B", "H"}
ArgLists == UNION {[1..n -> Letters] : n \in 0..3}
Args(ls, c) == [i \in 1..Len(ls) |-> <<ls[i], 10 + i, c>>]
Next ==
  \/ st = 0 /\ st' = 1 /\ Act("new", <<>>)
  \/ /\ st = 1 /\ st' = 1
     /\ \E ls \in ArgLists :
         \/ \E f \in Funs, c \in {"l", "r"} : Act("need", <<<<f>>, Args(ls, c), "r">>)
         \/ Act("need", <<<<>>, Args(ls, "r"), "l">>)
         \/ Len(ls) # 1 /\ \E f, g \in Funs : Act("need", <<<<f, g>>, Args(ls, IF f = g THEN "l" ELSE "r"), IF f = g THEN "l" ELSE "r">>)
Spec == Init /\ st = 0 /\ [][Next]_<<vars, st>>
View == <<st>>
Emit == PrintT(ToJson([s |-> st, e |-> ev', t |-> st']))
===========================================================================
