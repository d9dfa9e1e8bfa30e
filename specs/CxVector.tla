------------------------------ MODULE CxVector ------------------------------
(* A bounded vector is a sequence of at most cap elements.  Two vectors of one type, so
   that equality is compared between vectors with different pasts. *)
EXTENDS VF
VARIABLES cfg, v, ev
vars == <<cfg, v, ev>>
Void == [cap |-> 0, kind |-> 0]
Cap == cfg.cap
MoveOnly == cfg.kind = 2

Obs(c, s, t) ==
    [size |-> Len(s), empty |-> s = <<>>, full |-> Len(s) = c.cap, cap |-> c.cap,
     fwd |-> s, cfwd |-> s, rev |-> Reverse(s), crev |-> Reverse(s), idx |-> s,
     fb |-> IF s = <<>> THEN <<>> ELSE <<s[1], s[Len(s)], s[1], s[Len(s)], s[1]>>,
     eq |-> IF c.kind = 2 THEN <<>> ELSE IF s = t THEN <<1, 1, 0>> ELSE <<0, 0, 1>>]
Init == cfg = Void /\ v = <<<<>>, <<>>>> /\ ev = [op |-> "", a |-> <<>>, r |-> <<>>, o |-> <<>>]
New(a) == LET c == [cap |-> a[1], kind |-> a[2]] IN
    /\ cfg' = c /\ v' = <<<<>>, <<>>>>
    /\ ev' = [op |-> "new", a |-> a, r |-> <<>>, o |-> Obs(c, <<>>, <<>>)]
(* vector x becomes s, the call answers res *)
Become(op, a, x, s, res) ==
    /\ Len(s) <= Cap
    /\ LET nv == [v EXCEPT ![x] = s] IN
         /\ v' = nv
         /\ ev' = [op |-> op, a |-> a, r |-> res, o |-> Obs(cfg, nv[x], nv[3 - x])]
    /\ UNCHANGED cfg
Act(op, a) ==
  IF op = "new" THEN New(a) ELSE
  /\ cfg # Void
  /\ LET x == a[1] s == v[a[1]] IN
     CASE op = "ctor"  -> ~MoveOnly /\ Become(op, a, x, a[2], <<>>)
       [] op = "push"  -> (a[3] = 1 \/ ~MoveOnly) /\ Become(op, a, x, Append(s, a[2]), <<a[2]>>)
       [] op = "pushw" -> Become(op, a, x, Append(s, a[3]), <<a[3]>>)
       [] op = "pop"   -> ~MoveOnly /\ s # <<>> /\ Become(op, a, x, SubSeq(s, 1, Len(s) - 1), <<s[Len(s)]>>)
       [] op = "clear" -> Become(op, a, x, <<>>, <<>>)
       [] op = "write" -> a[2] < Len(s) /\ Become(op, a, x, [s EXCEPT ![a[2] + 1] = a[3]], <<a[3]>>)
       [] op = "getw"  -> a[2] < Len(s) /\ Become(op, a, x, [s EXCEPT ![a[2] + 1] = a[3]], <<a[3]>>)
       [] op = "iterw" -> a[2] < Len(s) /\ Become(op, a, x, [s EXCEPT ![a[2] + 1] = a[3]], <<a[3]>>)
       [] op = "riterw" -> a[2] < Len(s) /\ Become(op, a, x, [s EXCEPT ![Len(s) - a[2]] = a[3]], <<a[3]>>)
       [] op = "frontw" -> s # <<>> /\ Become(op, a, x, [s EXCEPT ![1] = a[2]], <<a[2]>>)
       [] op = "backw" -> s # <<>> /\ Become(op, a, x, [s EXCEPT ![Len(s)] = a[2]], <<a[2]>>)
       [] op = "overwrite" -> Become(op, a, x, a[2], <<Cap>>)          \* write a[2], take its length
       [] op = "keep"  -> a[2] <= Len(s) /\ Become(op, a, x, SubSeq(s, 1, a[2]), <<Cap>>)
       [] op = "copy"  -> ~MoveOnly /\ Become(op, a, x, v[a[2]], <<>>)
       [] op = "selfpush" -> ~MoveOnly /\ s # <<>> /\ Become(op, a, x, Append(s, s[1]), <<s[1]>>)
       [] OTHER -> FALSE
TypeOK == cfg # Void => \A x \in 1..2 : Len(v[x]) <= Cap
PopUndoesPush == [][ (ev'.op = "pop") => Append(v'[ev'.a[1]], ev'.r[1]) = v[ev'.a[1]] ]_vars
============================================================================
