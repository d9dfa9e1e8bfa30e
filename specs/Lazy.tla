-------------------------------- MODULE Lazy --------------------------------
(* Two lazily computed values sharing one numbered computation: the n-th run (n = 1, 2, ...)
   yields Val(kind, n), or throws when armed.  family 0 is latched, 1 is cached.
   kind: 0 int, 1 string, 2 move-only, 3 std::optional (odd runs yield an empty one), 4 bool,
   5 pointer (odd runs yield null), 6 a computation that returns a reference. *)
EXTENDS VF
VARIABLES kind, fam, has, val, count, armed, ev
vars == <<kind, fam, has, val, count, armed, ev>>
Void == -1
Val(k, n) == IF k \in {3, 5} THEN IF n % 2 = 1 THEN 0 ELSE n ELSE IF k = 4 THEN n % 2 ELSE n
Hows == 0..5
Obs(h, v, c) == [has |-> <<B(h[1]), B(h[2])>>, bool |-> <<B(h[1]), B(h[2])>>, count |-> c,
                 val |-> [j \in 1..2 |-> IF h[j] THEN [i \in 1..5 |-> v[j]] ELSE <<>>],
                 same |-> <<1, 1>>]
Init == /\ kind = Void /\ fam = <<0, 0>> /\ has = <<FALSE, FALSE>> /\ val = <<0, 0>> /\ count = 0 /\ armed = FALSE
        /\ ev = [op |-> "", a |-> <<>>, r |-> <<>>, o |-> <<>>]
New(a) == /\ kind' = a[1] /\ fam' = <<a[2], a[3]>> /\ has' = <<FALSE, FALSE>> /\ val' = <<0, 0>> /\ count' = 0
          /\ armed' = FALSE
          /\ ev' = [op |-> "new", a |-> a, r |-> <<>>, o |-> Obs(<<FALSE, FALSE>>, <<0, 0>>, 0)]
Become(op, a, h, v, c, ar, res) ==
    /\ has' = h /\ val' = [j \in 1..2 |-> IF h[j] THEN v[j] ELSE 0] /\ count' = c /\ armed' = ar
    /\ ev' = [op |-> op, a |-> a, r |-> res, o |-> Obs(h, v, c)]
    /\ UNCHANGED <<kind, fam>>
Put(op, a, j, h, v, c, ar, res) == Become(op, a, [has EXCEPT ![j] = h], [val EXCEPT ![j] = v], c, ar, res)
Access(op, a, j) ==
    IF has[j] THEN Put(op, a, j, TRUE, val[j], count, armed, <<val[j]>>)
    ELSE IF armed THEN Put(op, a, j, FALSE, 0, count + 1, FALSE, <<-1>>)
    ELSE LET v == Val(kind, count + 1) IN Put(op, a, j, TRUE, v, count + 1, FALSE, <<v>>)
Act(op, a) ==
  IF op = "new" THEN New(a) ELSE
  /\ kind # Void
  /\ IF op = "arm" THEN Become(op, a, has, val, count, TRUE, <<>>)
     ELSE LET j == a[1] IN
     CASE op = "make"    -> Put(op, a, j, FALSE, 0, count, armed, <<>>)           \* a[2]: from lvalue or rvalue
       [] op = "access"  -> Access(op, a, j)                                      \* a[2]: which accessor
       [] op = "query"   -> Become(op, a, has, val, count, armed, <<B(has[j])>>)
       [] op = "reset"   -> fam[j] = 1 /\ Put(op, a, j, FALSE, 0, count, armed, <<>>)
       [] op = "refresh" -> /\ fam[j] = 1                     \* a[2]: written through the result, if not negative
                            /\ IF armed
                               THEN (* the old value may or may not survive a failing recomputation *)
                                    \E h \in {FALSE, has[j]} : Put(op, a, j, h, val[j], count + 1, FALSE, <<-1>>)
                               ELSE LET v == Val(kind, count + 1) IN
                                    Put(op, a, j, TRUE, IF a[2] < 0 THEN v ELSE a[2], count + 1, FALSE, <<v>>)
       [] op = "copy"    -> kind # 2 /\ fam[1] = fam[2] /\ Put(op, a, j, has[3 - j], val[3 - j], count, armed, <<>>)
       [] op = "move"    -> /\ fam[1] = fam[2]                \* the source is made anew afterwards
                            /\ Become(op, a, [has EXCEPT ![j] = has[3 - j], ![3 - j] = FALSE],
                                      [val EXCEPT ![j] = val[3 - j]], count, armed, <<>>)
       [] OTHER -> FALSE
TypeOK == kind # Void => has \in [1..2 -> BOOLEAN] /\ count >= 0
===========================================================================
