------------------------------- MODULE Throws -------------------------------
(* What a user's exception leaves behind.  A container of one kind holds elements whose operations can throw: at the
   fuse-th operation after they were armed, on anything they do (what = 1) or only when they are compared (what = 2).
   How many operations a member needs is not specified, so an armed call may come to its end or throw; one that throws
   leaves what was there.  Functions given to algorithms throw at a given call: they were called up to there and not again. *)
EXTENDS VF
VARIABLES cfg, x, ev
vars == <<cfg, x, ev>>
Void == [kind |-> -1, cap |-> 0]
Calls == 0
Vector == 1
Queue == 2
Set == 3
Map == 4
KeyMap == 5
Multimap == 6
Optional == 7
Row == {Vector, Queue, Optional}
Maps == {Map, KeyMap, Multimap}
Before(p, q) == p[1] < q[1] \/ (p[1] = q[1] /\ p[2] < q[2])
Obs(k, c) == CASE k \in Row -> c [] k = Set -> Sorted(c) [] k \in Maps -> SetToSortSeq(c, Before) [] OTHER -> <<>>
None(k) == IF k \in Row \cup {Calls} THEN <<>> ELSE {}
Init == cfg = Void /\ x = <<>> /\ ev = [op |-> "", a |-> <<>>, r |-> <<>>, o |-> <<>>]
Size(c) == IF cfg.kind \in Row \cup {Calls} THEN Len(c) ELSE Cardinality(IF cfg.kind \in Maps THEN {p[1] : p \in c} ELSE c)
(* comes to its end with state c and result r, or throws (if it is armed) and leaves one of fails *)
Ends(op, a, what, c, r, fails) ==
  /\ Size(c) <= cfg.cap
  /\ \/ x' = c /\ ev' = [op |-> op, a |-> a, r |-> <<0>> \o r, o |-> Obs(cfg.kind, c)]
     \/ what # 0 /\ \E f \in fails : x' = f /\ ev' = [op |-> op, a |-> a, r |-> <<1>>, o |-> Obs(cfg.kind, f)]
  /\ UNCHANGED cfg
Keys == {p[1] : p \in x}
With(k, v) == IF cfg.kind = Multimap THEN x \cup {<<k, v>>} ELSE {p \in x : p[1] # k} \cup {<<k, v>>}
(* how often a function is called by an algorithm over n elements, if it never throws *)
Full(alg, n) == CASE alg \in {"butlast", "tjoin"} -> Most(n - 1, 0) [] alg \in {"apply", "latched", "optional", "or_else", "bind", "lazy"} -> 1
                  [] OTHER -> n
Algs == {"for_each", "for_each_n", "butlast", "transform", "transform_n", "reduce", "imf", "tfor_each", "ttransform", "tenumerate", "tfold_left", "tfold_right",
         "tall", "tany", "tnone", "tjoin", "apply", "latched", "optional", "or_else", "bind", "lazy", "bits", "bits_reduce", "args", "types", "needs", "make"}
Act(op, a) ==
  IF op = "new" THEN
    /\ cfg' = [kind |-> a[1], cap |-> a[2]] /\ x' = None(a[1])
    /\ ev' = [op |-> op, a |-> a, r |-> <<0>>, o |-> <<>>]
  ELSE
  /\ cfg # Void
  /\ LET k == cfg.kind IN
     CASE op = "add" -> (* <<value, copy or move, what, fuse>> *)
            /\ k \in {Vector, Queue, Set, Optional}
            /\ IF k = Set THEN Ends(op, a, a[3], x \cup {a[1]}, <<B(a[1] \notin x)>>, {x})
               ELSE IF k = Optional THEN Ends(op, a, a[3], <<a[1]>>, <<a[1]>>, {x, <<>>})      \* emplace: empty if it fails, as in std
               ELSE Ends(op, a, a[3], Append(x, a[1]), <<a[1]>>, {x})
       [] op = "put" -> (* <<key, value, what, fuse>> *)
            /\ k \in Maps /\ (k = Multimap /\ a[1] \notin Keys => a[3] # 1)     \* whether a new key comes before its value is open
            /\ Ends(op, a, a[3], With(a[1], a[2]), IF k = Multimap THEN <<>> ELSE <<B(a[1] \notin Keys)>>, {x})
            /\ k = Multimap => Cardinality({p \in With(a[1], a[2]) : p[1] = a[1]}) <= cfg.cap
       [] op = "take" -> (* <<what, fuse>>: what is removed but could not be handed over may be gone *)
            /\ k # Multimap /\ k # Optional /\ k # Calls /\ x # None(k)
            /\ CASE k = Vector -> Ends(op, a, a[1], Front(x), <<Last(x)>>, {x, Front(x)})
                 [] k = Queue -> Ends(op, a, a[1], Tail(x), <<Head(x)>>, {x, Tail(x)})
                 [] k = Set -> \E v \in x : Ends(op, a, a[1], x \ {v}, <<v>>, {x, x \ {v}})
                 [] OTHER -> \E p \in x : Ends(op, a, a[1], x \ {p}, p, {x, x \ {p}})
       [] op = "drop" -> (* <<key, what, fuse>> *)
            /\ k \in {Set} \cup Maps /\ a[2] # 1        \* filling the gap may stop half-way
            /\ IF k = Set THEN Ends(op, a, a[2], x \ {a[1]}, <<B(a[1] \in x)>>, {x})
               ELSE Ends(op, a, a[2], {p \in x : p[1] # a[1]}, <<B(a[1] \in Keys)>>, {x})
       [] op = "cut" -> (* <<key, value, what, fuse>> *)
            /\ k = Multimap /\ a[3] # 1 /\ Ends(op, a, a[3], x \ {<<a[1], a[2]>>}, <<B(<<a[1], a[2]>> \in x)>>, {x})
       [] op = "assign" -> (* <<value, what, fuse>> *) k = Optional /\ Ends(op, a, a[2], <<a[1]>>, <<>>, {x})
       [] op = "copy" -> (* <<how, what, fuse>>: the copy is looked at and goes *)
            /\ k # Calls /\ Ends(op, a, a[2], x, Obs(k, x), {x})
       [] op = "find" -> (* <<key, what, fuse>> *)
            /\ k \in {Set} \cup Maps /\ Ends(op, a, a[2], x, <<B(IF k = Set THEN a[1] \in x ELSE a[1] \in Keys)>>, {x})
       [] op = "resize" -> (* <<size, what, fuse>>: a function that may throw says how many of the elements remain *)
            /\ k = Vector /\ a[1] <= Len(x) /\ Ends(op, a, a[2], SubSeq(x, 1, a[1]), <<>>, {x})
       [] op = "clear" -> k # Calls /\ Ends(op, a, 0, None(k), <<>>, {})
       [] op = "tell" -> (* <<algorithm, elements, call that throws>>: how often the function was called *)
            /\ k = Calls /\ a[1] \in Algs
            /\ LET f == Full(a[1], a[2]) IN
                 /\ x' = x /\ UNCHANGED cfg
                 /\ ev' = [op |-> op, a |-> a, r |-> IF a[3] \in 1..f THEN <<1, a[3]>> ELSE <<0, f>>, o |-> <<>>]
       [] OTHER -> FALSE
TypeOK == cfg # Void => Size(x) <= cfg.cap
(* nothing that was not put there appears, whatever throws *)
Kept == [][ev'.op \in {"add", "put", "drop", "cut", "assign", "copy", "find", "resize"} /\ ev'.r[1] = 1 => x' = x \/ (cfg.kind = Optional /\ x' = <<>>)]_vars
===========================================================================
