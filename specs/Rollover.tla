------------------------------ MODULE Rollover ------------------------------
(* A register of one rollover integer of n bytes, and the pure operations on two of them:
   everything is arithmetic modulo 256^n. *)
EXTENDS Words
VARIABLES n, reg, ev
vars == <<n, reg, ev>>
Half(k) == [i \in 1..k |-> IF i = k THEN 128 ELSE 0]
(* forward distance from x to y is between one and half the range *)
Before(x, y) == LET d == SubW(y, x) IN ~IsZero(d) /\ ~LessW(Half(Len(x)), d)
Bin(f, x, y) == CASE f = "add" -> AddW(x, y) [] f = "sub" -> SubW(x, y) [] f = "mul" -> MulW(x, y)
                  [] f = "div" -> DivW(x, y) [] f = "mod" -> ModW(x, y)
One(k) == SmallW(k, 1)
Init == n = 0 /\ reg = <<>> /\ ev = [op |-> "", a |-> <<>>, r |-> <<>>, o |-> <<>>]
New(a) == n' = a[1] /\ reg' = Zeros(a[1]) /\ ev' = [op |-> "new", a |-> a, r |-> <<>>, o |-> Zeros(a[1])]
Become(op, a, w, res) == reg' = w /\ ev' = [op |-> op, a |-> a, r |-> res, o |-> w] /\ UNCHANGED n
(* one-byte values as plain integers, for whole rows of the operation tables *)
Row(f, x) == [i \in 1..256 |-> LET y == i - 1 IN
    CASE f = "add" -> (x + y) % 256 [] f = "sub" -> (x - y + 256) % 256 [] f = "mul" -> (x * y) % 256
      [] f = "div" -> IF y = 0 THEN -1 ELSE x \div y [] f = "mod" -> IF y = 0 THEN -1 ELSE x % y
      [] f = "less" -> B((y - x + 256) % 256 \in 1..128) [] f = "eq" -> B(x = y) [] f = "neg" -> (256 - x) % 256]
Act(op, a) ==
  IF op = "new" THEN New(a) ELSE
  /\ n # 0
  /\ CASE op = "set"   -> Become(op, a, a[1], <<>>)
       [] op = "row"   -> Become(op, a, reg, Row(a[1], a[2]))
       [] op = "conv"  -> (* a = <<limbs of the source, signed?, source is itself a rollover?>> *)
            Become(op, a, Encode(n, LET x == Decode(a[1], a[2] = 1) IN <<x[1], Fit(Most(n, Len(x[2])), x[2])>>), <<>>)
       [] op = "bin"   -> Become(op, a, reg, Bin(a[1], reg, a[2]))
       [] op = "cmpd"  -> LET w == Bin(a[1], reg, a[2]) IN Become(op, a, w, w)
       [] op = "self"  -> LET w == Bin(a[1], reg, reg) IN Become(op, a, w, w)   \* x op= x
       [] op = "un"    ->
           (CASE a[1] = "pos"  -> Become(op, a, reg, reg)
              [] a[1] = "neg"  -> Become(op, a, reg, NegW(reg))
              [] a[1] = "prei" -> LET w == AddW(reg, One(n)) IN Become(op, a, w, w)
              [] a[1] = "posti" -> Become(op, a, AddW(reg, One(n)), reg)
              [] a[1] = "pred" -> LET w == SubW(reg, One(n)) IN Become(op, a, w, w)
              [] a[1] = "postd" -> Become(op, a, SubW(reg, One(n)), reg))
       [] op = "rel"   -> Become(op, a, reg, <<B(reg = a[1]), B(reg # a[1]), B(Before(reg, a[1])), B(Before(a[1], reg))>>)
       [] op = "common" -> Become(op, a, reg, <<Most(a[1], n), Most(a[1], n), 1>>)
       [] OTHER -> FALSE
TypeOK == n # 0 => WordOK(n, reg)
===========================================================================
