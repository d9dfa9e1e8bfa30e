----------------------------- MODULE CxMultimap -----------------------------
(* A bounded multimap: at most kn keys, each related to a set of at most vn values.  A key
   may have no value: it is inserted alone, or its value set is emptied through the
   reference get() returns. *)
EXTENDS VF
VARIABLES cfg, m, ev          \* m: set of [k |-> key, vs |-> set of values]
vars == <<cfg, m, ev>>
Void == [kn |-> 0, vn |-> 0, kind |-> 0]
Keys(x) == {e.k : e \in x}
At(x, k) == IF k \in Keys(x) THEN (CHOOSE e \in x : e.k = k).vs ELSE {}
Put(x, k, s) == {e \in x : e.k # k} \cup {[k |-> k, vs |-> s]}
Del(x, k) == {e \in x : e.k # k}
List(x) == LET q == SetToSortSeq(x, LAMBDA a, b : a.k < b.k) IN [i \in 1..Len(q) |-> <<q[i].k, Sorted(q[i].vs)>>]
AllPairs(x) == LET q == List(x) IN FlattenSeq([i \in 1..Len(q) |-> [j \in 1..Len(q[i][2]) |-> <<q[i][1], q[i][2][j]>>]])
Obs(c, x) ==
    [size |-> Cardinality(x), empty |-> x = {}, cap |-> c.kn, rel |-> List(x), crel |-> List(x), get |-> List(x),
     in |-> Sorted(Keys(x)), pin |-> AllPairs(x)]
Init == cfg = Void /\ m = {} /\ ev = [op |-> "", a |-> <<>>, r |-> <<>>, o |-> <<>>]
New(a) == LET c == [kn |-> a[1], vn |-> a[2], kind |-> a[3]] IN
    /\ cfg' = c /\ m' = {} /\ ev' = [op |-> "new", a |-> a, r |-> <<>>, o |-> Obs(c, {})]
Become(op, a, x, res) ==
    /\ Cardinality(x) <= cfg.kn /\ \A e \in x : Cardinality(e.vs) <= cfg.vn
    /\ m' = x /\ ev' = [op |-> op, a |-> a, r |-> res, o |-> Obs(cfg, x)]
    /\ UNCHANGED cfg
Act(op, a) ==
  IF op = "new" THEN New(a) ELSE
  /\ cfg # Void
  /\ CASE op \in {"insert", "put"} -> Become(op, a, Put(m, a[1], At(m, a[1]) \cup {a[2]}), <<>>)
       [] op \in {"insertk", "putk"} -> Become(op, a, Put(m, a[1], At(m, a[1])), <<>>)
       [] op = "erasek" -> Become(op, a, Del(m, a[1]), <<B(a[1] \in Keys(m))>>)
       [] op = "erase"  -> LET s == At(m, a[1]) IN          \* removing the last value removes the key
            Become(op, a, IF a[2] \notin s THEN m
                          ELSE IF s = {a[2]} THEN Del(m, a[1]) ELSE Put(m, a[1], s \ {a[2]}), <<B(a[2] \in s)>>)
       [] op = "getins" -> a[1] \in Keys(m)
                           /\ Become(op, a, Put(m, a[1], At(m, a[1]) \cup {a[2]}), <<B(a[2] \notin At(m, a[1])), Cardinality(At(m, a[1]) \cup {a[2]})>>)
       [] op = "getclr" -> a[1] \in Keys(m) /\ Become(op, a, Put(m, a[1], {}), <<>>)
       [] op = "eraseown" ->                                 \* key and value are references into the map
            \E e \in m : \E v \in e.vs :
               Become(op, a, IF e.vs = {v} THEN m \ {e} ELSE Put(m, e.k, e.vs \ {v}), <<e.k, v, 1>>)
       [] op = "clear"  -> Become(op, a, {}, <<>>)
       [] op = "copy"   -> Become(op, a, m, <<>>)
       [] OTHER -> FALSE
TypeOK == cfg # Void => Cardinality(m) <= cfg.kn /\ Cardinality(Keys(m)) = Cardinality(m)
(* an operation on one key leaves every other key alone *)
Local == [][ ev'.op \notin {"new", "clear", "eraseown"} =>
             \A e \in m : (ev'.op = "copy" \/ e.k # ev'.a[1]) => e \in m' ]_vars
============================================================================
