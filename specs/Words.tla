------------------------------- MODULE Words -------------------------------
(* Exact arithmetic on machine words of any width.  A word of n bytes is a sequence of n
   limbs 0..255, least significant first; TLC's own integers have 32 bits only. *)
EXTENDS VF, Bitwise
WordOK(n, w) == Len(w) = n /\ \A i \in 1..n : w[i] \in 0..255
Zeros(n) == [i \in 1..n |-> 0]
Ones(n) == [i \in 1..n |-> 255]
RECURSIVE SmallW(_, _)
SmallW(n, v) == IF n = 0 THEN <<>> ELSE <<v % 256>> \o SmallW(n - 1, v \div 256)
(* carries out of column sums: the word with the given columns (each below 2^23), mod 256^n *)
RECURSIVE Carry(_, _, _)
Carry(cols, i, c) == IF i > Len(cols) THEN <<>>
                     ELSE <<(cols[i] + c) % 256>> \o Carry(cols, i + 1, (cols[i] + c) \div 256)
Norm(cols) == Carry(cols, 1, 0)
Fit(n, w) == [i \in 1..n |-> IF i <= Len(w) THEN w[i] ELSE 0]
NotW(a) == [i \in 1..Len(a) |-> 255 - a[i]]
AddW(a, b) == Norm([i \in 1..Len(a) |-> a[i] + b[i]])
NegW(a) == AddW(NotW(a), SmallW(Len(a), 1))
SubW(a, b) == AddW(a, NegW(b))
RECURSIVE ColSum(_, _, _, _)
ColSum(a, b, k, i) == IF i > k THEN 0 ELSE a[i] * b[k + 1 - i] + ColSum(a, b, k, i + 1)
MulW(a, b) == Norm([k \in 1..Len(a) |-> ColSum(a, b, k, 1)])
RECURSIVE LessAt(_, _, _)
LessAt(a, b, i) == IF i = 0 THEN FALSE ELSE IF a[i] # b[i] THEN a[i] < b[i] ELSE LessAt(a, b, i - 1)
LessW(a, b) == LessAt(a, b, Len(a))                     \* unsigned, equal lengths
IsZero(a) == \A i \in 1..Len(a) : a[i] = 0
ScaleW(a, k) == Norm([i \in 1..Len(a) |-> a[i] * k])
(* greatest q in lo..hi with d * q <= r (d * lo <= r is known) *)
RECURSIVE Digit(_, _, _, _)
Digit(d, r, lo, hi) == IF lo = hi THEN lo
                       ELSE LET m == (lo + hi + 1) \div 2 IN
                            IF LessW(r, ScaleW(d, m)) THEN Digit(d, r, lo, m - 1) ELSE Digit(d, r, m, hi)
(* schoolbook division: <<quotient digits so far (least significant first), remainder>> *)
RECURSIVE DivAt(_, _, _, _, _)
DivAt(a, d, i, q, r) ==
    IF i = 0 THEN <<q, r>>
    ELSE LET r2 == <<a[i]>> \o SubSeq(r, 1, Len(r) - 1)
             g == Digit(d, r2, 0, 255)
         IN DivAt(a, d, i - 1, <<g>> \o q, SubW(r2, ScaleW(d, g)))
DivMod(a, b) == LET n == Len(a) x == DivAt(a, Fit(n + 1, b), n, <<>>, Zeros(n + 1)) IN <<x[1], Fit(n, x[2])>>
DivW(a, b) == DivMod(a, b)[1]
ModW(a, b) == DivMod(a, b)[2]
(* division by a small number *)
RECURSIVE DivAtS(_, _, _, _)
DivAtS(a, d, i, r) == IF i = 0 THEN <<>>
                      ELSE DivAtS(a, d, i - 1, (256 * r + a[i]) % d) \o <<(256 * r + a[i]) \div d>>
DivSmall(a, d) == DivAtS(a, d, Len(a), 0)
(* numbers with a sign: <<negative?, magnitude>>; a zero magnitude is never negative *)
Top(a) == a[Len(a)] >= 128
Decode(a, signed) == IF signed /\ Top(a) THEN <<TRUE, NegW(a)>> ELSE <<FALSE, a>>
Encode(n, x) == IF x[1] THEN Fit(n, NegW(Fit(n, x[2]))) ELSE Fit(n, x[2])
LessS(x, y) == IF x[1] # y[1] THEN x[1] ELSE IF x[1] THEN LessW(y[2], x[2]) ELSE LessW(x[2], y[2])
(* bits *)
BitsOf(a) == {p \in 0..(8 * Len(a) - 1) : (a[p \div 8 + 1] \div 2^(p % 8)) % 2 = 1}
RECURSIVE SumPow(_)
SumPow(S) == IF S = {} THEN 0 ELSE LET p == CHOOSE q \in S : TRUE IN 2^p + SumPow(S \ {p})
FromBits(n, S) == [i \in 1..n |-> SumPow({p % 8 : p \in {q \in S : q \div 8 = i - 1}})]
===========================================================================
