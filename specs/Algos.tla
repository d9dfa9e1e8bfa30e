-------------------------------- MODULE Algos --------------------------------
(* Range algorithms over several ranges in lockstep, and a pair of counting iterators.
   An algorithm call is described by what it does: the calls made (the argument lists, in order), what is
   written, and where every returned iterator stands.  The first range has kind a[1] and contents a[2]; further
   ranges are given as <<kind, contents>> or, for a counting range, <<Counting, <<start>>>>.
   kinds: 0 input, 1 forward, 2 bidirectional, 3 random access, 4 counting.
   The driver's function returns Mix of its arguments and of the number of earlier calls of the same function
   object, so a lost, repeated or reordered call and a function object that was copied back are all visible. *)
EXTENDS VF
VARIABLES ty, x, y, ev
vars == <<ty, x, y, ev>>
Void == -1
Counting == 4
Elem(r, i) == IF r[1] = Counting THEN r[2][1] + (i - 1) ELSE r[2][i]
RECURSIVE Weigh(_, _)
Weigh(s, w) == IF s = <<>> THEN 0 ELSE w * Head(s) + Weigh(Tail(s), 3 * w)
Mix(s, earlier) == (Weigh(s, 1) + 1000 * earlier)
Rows(all, n) == [i \in 1..n |-> [j \in 1..Len(all) |-> Elem(all[j], i)]]
Vals(all, n) == LET rows == Rows(all, n) IN [i \in 1..n |-> Mix(rows[i], i - 1)]
Fold(acc, s) == FoldLeft(LAMBDA p, q : (7 * p + q) % 10007, acc, s)
Ends(rs, n) == [j \in 1..Len(rs) |-> IF rs[j][1] = Counting THEN rs[j][2][1] + n ELSE n]
Count(n) == IF n < 0 THEN 0 ELSE n
Res(calls, state, ends, out) == [calls |-> calls, state |-> state, ends |-> ends, out |-> out]
Enough(rs, n) == (\A j \in 1..Len(rs) : rs[j][1] = Counting \/ Len(rs[j][2]) >= n) = TRUE
Take(s, k) == SubSeq(s, 1, k)
(* which of the three functions sees which element *)
Parts(s) == [i \in 1..Len(s) |-> <<IF i = 1 THEN 1 ELSE IF i = Len(s) THEN 3 ELSE 2, s[i]>>]
CmpObs == [vals |-> <<x, y>>]
Cmp(p, q) == <<B(p = q), B(p # q), B(p < q), B(p <= q), B(p > q), B(p >= q)>>
(* value types of the counters: 0 int, 1 char (signed here), 2 unsigned char, 3 short, 4 long long, 5 unsigned *)
Lo(t) == IF t = 1 THEN -128 ELSE IF t \in {2, 5} THEN 0 ELSE IF t = 3 THEN -32768 ELSE -1000000000
Hi(t) == IF t = 1 THEN 127 ELSE IF t = 2 THEN 255 ELSE IF t = 3 THEN 32767 ELSE 1000000000
In(t, v) == Lo(t) <= v /\ v <= Hi(t)
Init == ty = Void /\ x = 0 /\ y = 0 /\ ev = [op |-> "", a |-> <<>>, r |-> <<>>, o |-> <<>>]
New(a) == /\ ty' = a[1] /\ x' = a[2] /\ y' = a[3]
          /\ ev' = [op |-> "new", a |-> a, r |-> <<>>, o |-> <<a[2], a[3]>>]
Upd(op, a, nx, ny, res) == In(ty, nx) /\ In(ty, ny) /\ x' = nx /\ y' = ny /\ UNCHANGED ty
                           /\ ev' = [op |-> op, a |-> a, r |-> res, o |-> <<nx, ny>>]
Say(op, a, res) == Upd(op, a, x, y, res)
(* a = <<kind, contents, further ranges, count, count type, destination>> *)
All(a) == <<<<a[1], a[2]>>>> \o a[3]
LenOf(a) == Len(a[2])
Act(op, a) ==
  IF op = "new" THEN New(a) ELSE
  /\ ty # Void
  /\ CASE op = "each"    -> /\ Enough(a[3], LenOf(a))
                            /\ Say(op, a, Res(Rows(All(a), LenOf(a)), LenOf(a), Ends(a[3], LenOf(a)), <<>>))
       [] op = "eachn"   -> LET n == Count(a[4]) IN
                            /\ Enough(All(a), n)
                            /\ Say(op, a, Res(Rows(All(a), n), n, Ends(All(a), n), <<>>))
       [] op = "butlast" -> LET n == Count(LenOf(a) - a[4]) IN
                            /\ a[4] >= 0 /\ a[1] # 0 /\ Enough(a[3], LenOf(a))
                            /\ Say(op, a, Res(Rows(All(a), n), n, Ends(All(a), n), <<>>))
       [] op = "but1"    -> LET n == Count(LenOf(a) - 1) IN
                            /\ a[1] # 0 /\ Enough(a[3], LenOf(a))
                            /\ Say(op, a, Res(Rows(All(a), n), n, Ends(All(a), n), <<>>))
       [] op = "trans"   -> LET n == LenOf(a) IN
                            /\ Enough(a[3], n)
                            /\ Say(op, a, Res(Rows(All(a), n), n, <<n>> \o Ends(All(a), n), Vals(All(a), n)))
       [] op = "transn"  -> LET n == Count(a[4]) IN
                            /\ Enough(All(a), n)
                            /\ Say(op, a, Res(Rows(All(a), n), n, <<n>> \o Ends(All(a), n), Vals(All(a), n)))
       [] op = "reduce"  -> LET n == LenOf(a) IN
                            /\ Enough(a[3], n)
                            /\ Say(op, a, Res(Rows(All(a), n), n, <<>>, <<Fold(5, Vals(All(a), n))>>))
       [] op = "reducen" -> LET n == a[4] IN
                            /\ n >= 0 /\ Enough(All(a), n)
                            /\ Say(op, a, Res(Rows(All(a), n), n, <<>>, <<Fold(5, Vals(All(a), n))>>))
       [] op = "imf"     -> LET n == LenOf(a) IN
                            /\ a[1] # 0
                            /\ Say(op, a, [calls |-> Parts(a[2]),
                                           state |-> <<B(n >= 1), Count(n - 2), B(n >= 2)>>])
       [] op = "inc"     -> Upd(op, a, x + 1, y, <<x + 1>>)
       [] op = "pinc"    -> Upd(op, a, x + 1, y, <<x>>)
       [] op = "dec"     -> Upd(op, a, x - 1, y, <<x - 1>>)
       [] op = "pdec"    -> Upd(op, a, x - 1, y, <<x>>)
       [] op = "add"     -> Upd(op, a, x + a[1], y, <<x + a[1]>>)           \* += , advance
       [] op = "sub"     -> Upd(op, a, x - a[1], y, <<x - a[1]>>)
       [] op = "plus"    -> In(ty, x + a[1]) /\ Upd(op, a, x, x + a[1], <<>>) \* y := x + d, or d + x
       [] op = "minus"   -> In(ty, x - a[1]) /\ Upd(op, a, x, x - a[1], <<>>)
       [] op = "diff"    -> (ty = 5 => x >= y) /\ Say(op, a, <<x - y>>)
       [] op = "cmp"     -> Say(op, a, Cmp(x, y))
       [] op = "swap"    -> Upd(op, a, y, x, <<>>)
       [] OTHER -> FALSE
TypeOK == ty # Void => In(ty, x) /\ In(ty, y)
(* the definitions are complete and in step: every call's arguments come from equal positions, in order *)
Lockstep == ev.op \in {"each", "eachn", "trans", "transn", "butlast", "but1", "reduce", "reducen"} =>
              \A i \in 1..Len(ev.r.calls), j \in 1..Len(All(ev.a)) : ev.r.calls[i][j] = Elem(All(ev.a)[j], i)
===========================================================================
