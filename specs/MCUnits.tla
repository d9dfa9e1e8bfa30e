------------------------------ MODULE MCUnits ------------------------------
EXTENDS Units, Json
VARIABLE st
Plan == <<<<<<"push", 1>>, <<"opt", 4>>, <<"pair", 12>>, <<"link", 1>>, <<"tag", 0>>>>,
          <<<<"push", 2>>, <<"opt", 5>>, <<"enq", 6>>, <<"tag", 3>>, <<"lazy", 0>>>>,
          <<<<"push", 3>>, <<"pair", 22>>, <<"panic", 0>>, <<"chain", 1>>, <<"chain", 2>>>>>>
Flat == FoldLeft(LAMBDA s, u : s \o [i \in 1..Len(Plan[u]) |-> <<u>> \o Plan[u][i]], <<>>, <<1, 2, 3>>)
Calls == {<<"bit", 3>>, <<"bit", 69>>, <<"push", 7>>, <<"enq", 8>>, <<"deq", 0>>, <<"key", 5>>, <<"pair", 32>>, <<"relate", 6>>, <<"opt", 9>>, <<"roll", 200>>,
          <<"link", 2>>, <<"unlink", 0>>, <<"chain", 3>>, <<"fetch", 5>>, <<"mark", 29>>, <<"lazy", 0>>, <<"renew", 0>>, <<"three", 2>>,
          <<"tag", 1>>, <<"tag", 2>>, <<"tag", 3>>, <<"tag", 4>>, <<"tag", 5>>, <<"panic", 1>>}
(* the order of the units decides nothing but the order in sequences and the latest value *)
Ops == {<<"bit", 1>>, <<"push", 1>>, <<"key", 2>>, <<"pair", 11>>, <<"pair", 1>>, <<"relate", 7>>, <<"opt", 3>>, <<"roll", 200>>, <<"fetch", 2>>,
        <<"mark", 4>>, <<"lazy", 0>>, <<"renew", 0>>, <<"three", 2>>, <<"tag", 3>>, <<"panic", 0>>}
ASSUME \A x, y, z \in Ops : Cardinality({Settled(s) : s \in Started(<<<<x>>, <<y>>, <<z>>>>)}) = 1
ASSUME \A x, y \in Ops : Started(<<<<x, y>>>>) = {After(After(Nothing, x[1], x[2]), y[1], y[2])}
ASSUME Cardinality(Started(Plan)) > 1
Next ==
  \/ st = 0 /\ st' = 1 /\ Act("new", <<3>>)
  \/ st \in 1..Len(Flat) /\ st' = st + 1 /\ Act("plan", Flat[st])
  \/ st = Len(Flat) + 1 /\ st' = 100 /\ Act("start", <<>>)
  \/ st \in {100, 101} /\ st' = st + 1 /\ \E u \in IF st = 100 THEN 1..3 ELSE {2}, x \in Calls : Act("call", <<u>> \o x)
Spec == Init /\ st = 0 /\ [][Next]_<<vars, st>>
View == <<plan, c, st>>
Emit == PrintT(ToJson([s |-> <<plan, Shown(c), st>>, e |-> ev', t |-> <<plan', Shown(c'), st'>>]))
===========================================================================
