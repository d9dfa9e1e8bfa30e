----------------------------- MODULE Byterator -----------------------------
(* Two byte cursors over one buffer that starts `base` bytes after an address divisible by 64.
   kind: element type of the buffer (the size of its elements is Elem(kind)); kind 4 is constant.
   Values travel as bytes, least significant first (a little-endian machine). *)
EXTENDS Words
VARIABLES kind, base, buf, pos, ev
vars == <<kind, base, buf, pos, ev>>
Void == -1
Elem(k) == CASE k = 0 -> 1 [] k = 1 -> 2 [] k \in {2, 4, 5} -> 4 [] k = 3 -> 8
Const == kind = 4
N == Len(buf)
VSize(v) == CASE v \in {"u8", "i8"} -> 1 [] v \in {"u16", "i16"} -> 2 [] v = "s3" -> 3 [] v = "u32" -> 4 [] v = "u64" -> 8
VSigned(v) == v \in {"i8", "i16"}
(* what reading v yields when returned as an r: converted like an integer of that type *)
Conv(bytes, v, r) == IF r = "same" THEN bytes ELSE Encode(VSize(r), LET x == Decode(bytes, VSigned(v)) IN <<x[1], Fit(8, x[2])>>)
Obs(k, b, p) == [pos |-> p, buf |-> b, intact |-> 1]
Init == kind = Void /\ base = 0 /\ buf = <<>> /\ pos = <<0, 0>> /\ ev = [op |-> "", a |-> <<>>, r |-> <<>>, o |-> <<>>]
New(a) == /\ kind' = a[1] /\ base' = a[3] /\ buf' = a[2] /\ pos' = <<0, 0>>
          /\ ev' = [op |-> "new", a |-> a, r |-> <<>>, o |-> Obs(a[1], a[2], <<0, 0>>)]
Become(op, a, b, p, res) == /\ buf' = b /\ pos' = p /\ UNCHANGED <<kind, base>>
                            /\ ev' = [op |-> op, a |-> a, r |-> res, o |-> Obs(kind, b, p)]
In(p) == p \in 0..N
Go(op, a, c, p, res) == In(p) /\ Become(op, a, buf, [pos EXCEPT ![c] = p], res)
Bytes(p, k) == SubSeq(buf, p + 1, p + k)
Over(p, w) == [i \in 1..N |-> IF i \in (p + 1)..(p + Len(w)) THEN w[i - p] ELSE buf[i]]
Aligned(p, k) == ((base + p + k - 1) \div k) * k - base
Rel(x, y) == <<B(x = y), B(x # y), B(x < y), B(x <= y), B(x > y), B(x >= y), IF x < y THEN -1 ELSE IF x = y THEN 0 ELSE 1>>
Act(op, a) ==
  IF op = "new" THEN New(a) ELSE
  /\ kind # Void
  /\ LET c == a[1] p == pos[a[1]] IN
     CASE op = "at"      -> Go(op, a, c, a[2] * Elem(kind), <<>>)          \* from an iterator to element a[2]
       [] op = "copy"    -> Go(op, a, c, pos[3 - c], <<>>)
       [] op = "prei"    -> Go(op, a, c, p + 1, <<p + 1>>)
       [] op = "posti"   -> Go(op, a, c, p + 1, <<p>>)
       [] op = "pred"    -> Go(op, a, c, p - 1, <<p - 1>>)
       [] op = "postd"   -> Go(op, a, c, p - 1, <<p>>)
       [] op = "add"     -> Go(op, a, c, p + a[2], <<p + a[2]>>)           \* a[3]: 0 +=, 1 advance
       [] op = "sub"     -> Go(op, a, c, p - a[2], <<p - a[2]>>)
       [] op = "plus"    -> In(p + a[2]) /\ Go(op, a, c, p, <<p + a[2], p + a[2]>>)   \* it + d, d + it
       [] op = "minus"   -> In(p - a[2]) /\ Go(op, a, c, p, <<p - a[2]>>)
       [] op = "diff"    -> Go(op, a, c, p, <<pos[1] - pos[2]>>)
       [] op = "rel"     -> Go(op, a, c, p, Rel(pos[1], pos[2]))
       [] op = "relit"   -> Go(op, a, c, p, Rel(p, a[2] * Elem(kind)))     \* with an iterator to element a[2]
       [] op = "skip"    -> Go(op, a, c, p + VSize(a[2]), <<p + VSize(a[2])>>)        \* a[3]: which spelling
       [] op = "align"   -> LET q == Aligned(p, VSize(a[2])) + a[3] * VSize(a[2]) IN Go(op, a, c, q, <<q>>)
       [] op = "get"     -> In(p + 1) /\ Go(op, a, c, p, <<buf[p + 1], buf[p + 1]>>)  \* *it, it->
       [] op = "index"   -> (p + a[2]) \in 0..(N - 1) /\ Go(op, a, c, p, <<buf[p + a[2] + 1], buf[p + a[2] + 1]>>)
       [] op = "put"     -> /\ ~Const /\ (p + a[2]) \in 0..(N - 1)         \* *it = b, it[n] = b
                            /\ Become(op, a, Over(p + a[2], <<a[3]>>), pos, <<>>)
       [] op = "peek"    -> (* a = <<c, type read, type returned, spelling>> *)
            In(p + VSize(a[2])) /\ Go(op, a, c, p, Conv(Bytes(p, VSize(a[2])), a[2], a[3]))
       [] op = "read"    -> In(p + VSize(a[2])) /\ Go(op, a, c, p + VSize(a[2]), Conv(Bytes(p, VSize(a[2])), a[2], a[3]))
       [] op = "write"   -> (* a = <<c, type, bytes of the argument (possibly wider), spelling>> *)
            /\ ~Const /\ In(p + VSize(a[2]))
            /\ Become(op, a, Over(p, Fit(VSize(a[2]), a[3])), [pos EXCEPT ![c] = p + VSize(a[2])], <<>>)
       [] OTHER -> FALSE
TypeOK == kind # Void => \A c \in 1..2 : In(pos[c])
===========================================================================
