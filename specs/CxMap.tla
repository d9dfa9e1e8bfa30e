------------------------------- MODULE CxMap -------------------------------
(* A bounded map: a function from at most cap keys to values, as a set of pairs. *)
EXTENDS VF
VARIABLES cfg, m, ev
vars == <<cfg, m, ev>>
Void == [cap |-> 0, kind |-> 0]
Cap == cfg.cap
Keys(x) == {p[1] : p \in x}
At(x, k) == (CHOOSE p \in x : p[1] = k)[2]
Put(x, k, v) == {p \in x : p[1] # k} \cup {<<k, v>>}
Del(x, k) == {p \in x : p[1] # k}
Pairs(x) == SetToSortSeq(x, LAMBDA p, q : p[1] < q[1])
(* constructing from a list keeps the first value of each key, like standard maps *)
RECURSIVE FromList(_, _)
FromList(x, l) == IF l = <<>> THEN x
                  ELSE FromList(IF Head(l)[1] \in Keys(x) THEN x ELSE x \cup {Head(l)}, Tail(l))
Obs(c, x) ==
    [size |-> Cardinality(x), empty |-> x = {}, full |-> Cardinality(x) = c.cap, cap |-> c.cap,
     pairs |-> Pairs(x), cpairs |-> Pairs(x), get |-> Pairs(x), cget |-> Pairs(x), in |-> Sorted(Keys(x))]
Init == cfg = Void /\ m = {} /\ ev = [op |-> "", a |-> <<>>, r |-> <<>>, o |-> <<>>]
New(a) == LET c == [cap |-> a[1], kind |-> a[2]] IN
    /\ cfg' = c /\ m' = {} /\ ev' = [op |-> "new", a |-> a, r |-> <<>>, o |-> Obs(c, {})]
Become(op, a, x, res) ==
    /\ Cardinality(x) <= Cap
    /\ m' = x /\ ev' = [op |-> op, a |-> a, r |-> res, o |-> Obs(cfg, x)]
    /\ UNCHANGED cfg
Act(op, a) ==
  IF op = "new" THEN New(a) ELSE
  /\ cfg # Void
  /\ CASE op = "ctor"   -> Len(a[1]) <= Cap /\ Become(op, a, FromList({}, a[1]), <<>>)
       [] op = "insert" -> Become(op, a, Put(m, a[1], a[2]), <<B(a[1] \notin Keys(m))>>)
       [] op = "put"    -> Become(op, a, Put(m, a[1], a[2]), <<B(a[1] \notin Keys(m))>>)
       [] op = "insfrom" -> a[2] \in Keys(m)        \* the value is a reference into the map itself
                            /\ Become(op, a, Put(m, a[1], At(m, a[2])), <<B(a[1] \notin Keys(m))>>)
       [] op = "getw"   -> a[1] \in Keys(m) /\ Become(op, a, Put(m, a[1], a[2]), <<At(m, a[1]), a[2]>>)
       [] op = "addall" -> Become(op, a, {<<p[1], (p[2] + a[1]) % 100>> : p \in m}, <<>>)
       [] op = "erase"  -> Become(op, a, Del(m, a[1]), <<B(a[1] \in Keys(m))>>)
       [] op = "eraseown" -> \E p \in m : Become(op, a, m \ {p}, <<p[1], 1>>)
       [] op = "pop"    -> \E p \in m : Become(op, a, m \ {p}, p)
       [] op = "clear"  -> Become(op, a, {}, <<>>)
       [] op = "copy"   -> Become(op, a, m, <<>>)
       [] OTHER -> FALSE
TypeOK == cfg # Void => Cardinality(m) <= Cap /\ Cardinality(Keys(m)) = Cardinality(m)
ReadBack == [][ (ev'.op \in {"insert", "put", "getw"} => At(m', ev'.a[1]) = ev'.a[2])
                /\ (ev'.op = "erase" => ev'.a[1] \notin Keys(m')) ]_vars
============================================================================
