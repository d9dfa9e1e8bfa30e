----------------------------- MODULE AtomicVal -----------------------------
(* The value of an atomic object is a string of bytes, least significant first; arithmetic
   wraps at its width. *)
EXTENDS VF, Bitwise
RECURSIVE AddC(_, _, _), SubB(_, _, _)
AddC(x, y, c) == IF x = <<>> THEN <<>>
                 ELSE LET s == Head(x) + Head(y) + c IN <<s % 256>> \o AddC(Tail(x), Tail(y), s \div 256)
SubB(x, y, c) == IF x = <<>> THEN <<>>
                 ELSE LET d == Head(x) - Head(y) - c IN <<d % 256>> \o SubB(Tail(x), Tail(y), IF d < 0 THEN 1 ELSE 0)
Add(x, y) == AddC(x, y, 0)
Sub(x, y) == SubB(x, y, 0)
AndL(x, y) == [i \in 1..Len(x) |-> x[i] & y[i]]
OrL(x, y) == [i \in 1..Len(x) |-> x[i] | y[i]]
XorL(x, y) == [i \in 1..Len(x) |-> x[i] ^^ y[i]]
One(w) == [i \in 1..w |-> IF i = 1 THEN 1 ELSE 0]
(* cfg = <<width, initial bytes>>; operations with a memory order have it first *)
AVInit(c) == c[2]
AVApply(c, v, op, a) ==
    LET n == IF Len(a) = c[1] + 1 THEN Tail(a) ELSE a
        w == c[1] IN
    CASE op \in {"load", "conv"} -> <<v, v>>
      [] op = "store"   -> <<n, <<>>>>
      [] op = "assign"  -> <<n, n>>
      [] op = "xchg"    -> <<n, v>>
      [] op = "fadd"    -> <<Add(v, n), v>>
      [] op = "fsub"    -> <<Sub(v, n), v>>
      [] op = "fand"    -> <<AndL(v, n), v>>
      [] op = "for"     -> <<OrL(v, n), v>>
      [] op = "fxor"    -> <<XorL(v, n), v>>
      [] op = "addeq"   -> <<Add(v, n), Add(v, n)>>
      [] op = "subeq"   -> <<Sub(v, n), Sub(v, n)>>
      [] op = "andeq"   -> <<AndL(v, n), AndL(v, n)>>
      [] op = "oreq"    -> <<OrL(v, n), OrL(v, n)>>
      [] op = "xoreq"   -> <<XorL(v, n), XorL(v, n)>>
      [] op = "preinc"  -> <<Add(v, One(w)), Add(v, One(w))>>
      [] op = "postinc" -> <<Add(v, One(w)), v>>
      [] op = "predec"  -> <<Sub(v, One(w)), Sub(v, One(w))>>
      [] op = "postdec" -> <<Sub(v, One(w)), v>>
(* 5 is sequential consistency; -1 means the caller did not say *)
AVOrder(op, a) == IF op \in {"load", "store", "xchg", "fadd", "fsub", "fand", "for", "fxor"} /\ a[1] # -1
                  THEN a[1] ELSE 5
============================================================================
