------------------------------- MODULE CxSet -------------------------------
(* A bounded set of keys: a mathematical set of at most cap keys.  Iteration order and
   the member a pop removes are left open. *)
EXTENDS VF
VARIABLES cfg, s, ev
vars == <<cfg, s, ev>>
Void == [cap |-> 0, kind |-> 0]
Cap == cfg.cap
Obs(c, x) ==
    [size |-> Cardinality(x), empty |-> x = {}, cap |-> c.cap, members |-> Sorted(x),
     cmembers |-> Sorted(x), in |-> Sorted(x \cap 0..(IF c.cap < 10 THEN 9 ELSE c.cap + 9))]
Init == cfg = Void /\ s = {} /\ ev = [op |-> "", a |-> <<>>, r |-> <<>>, o |-> <<>>]
New(a) == LET c == [cap |-> a[1], kind |-> a[2]] IN
    /\ cfg' = c /\ s' = {} /\ ev' = [op |-> "new", a |-> a, r |-> <<>>, o |-> Obs(c, {})]
Become(op, a, x, res) ==
    /\ Cardinality(x) <= Cap
    /\ s' = x /\ ev' = [op |-> op, a |-> a, r |-> res, o |-> Obs(cfg, x)]
    /\ UNCHANGED cfg
Act(op, a) ==
  IF op = "new" THEN New(a) ELSE
  /\ cfg # Void
  /\ CASE op = "ctor"   -> Len(a[1]) <= Cap /\ Become(op, a, ToSet(a[1]), <<>>)
       [] op = "insert" -> Become(op, a, s \cup {a[1]}, <<B(a[1] \notin s)>>)     \* a[2]: copy / move
       [] op = "erase"  -> Become(op, a, s \ {a[1]}, <<B(a[1] \in s)>>)
       [] op = "reinsert" -> s # {} /\ Become(op, a, s, <<0>>)                    \* insert(an own element)
       [] op = "eraseown" -> \E k \in s : Become(op, a, s \ {k}, <<k, 1>>)        \* erase(an own element)
       [] op = "merge"  -> Become(op, a, s \cup ToSet(a[1]), <<>>)                \* a[2]: kind of source
       [] op = "mergeself" -> Become(op, a, s, <<>>)
       [] op = "pop"    -> \E k \in s : Become(op, a, s \ {k}, <<k>>)
       [] op = "clear"  -> Become(op, a, {}, <<>>)
       [] op = "copy"   -> Become(op, a, s, <<>>)
       [] OTHER -> FALSE
TypeOK == cfg # Void => Cardinality(s) <= Cap
(* insert and erase report truthfully; a refused insert changes nothing *)
Truthful == [][ /\ (ev'.op = "insert" => (ev'.r[1] = 1) = (s' # s))
                /\ (ev'.op = "erase" => (ev'.r[1] = 1) = (s' # s))
                /\ (ev'.op = "pop" => Cardinality(s') = Cardinality(s) - 1 /\ ev'.r[1] \in s) ]_vars
============================================================================
