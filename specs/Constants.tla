------------------------------ MODULE Constants ------------------------------
(* Constants as they are written, wrapped and put into arrays. Numbers beyond TLC's are words (Words.tla).
   Types by letter: b bool, c signed char, h unsigned char, s short, t unsigned short, i int, u unsigned, l long,
   m unsigned long, e an enumeration; v a string view. *)
EXTENDS Words
VARIABLE ev
vars == ev
Init == ev = [op |-> "", a |-> <<>>, r |-> <<>>, o |-> <<>>]
Say(op, a, r) == ev' = [op |-> op, a |-> a, r |-> r, o |-> <<>>]
(* ---- numerals: the value of the digits in the base the prefix gives; separators mean nothing *)
Numeral(n, base, ds) == FoldLeft(LAMBDA w, d : AddW(ScaleW(w, base), SmallW(n, d)), Zeros(n), ds)
(* nothing is lost in n bytes *)
FitsIn(kind, n, base, ds) == LET w == Numeral(n + 4, base, ds) IN
                             IsZero(SubSeq(w, n + 1, n + 4)) /\ (kind \in {"pint", "pll"} => w[n] < 128)
Bytes == [c |-> 4, idx |-> 8, z8 |-> 8, z16 |-> 8, z32 |-> 8, z64 |-> 8,
          p8 |-> 1, p16 |-> 2, p32 |-> 4, p64 |-> 8, pint |-> 4, pll |-> 8]
Digits(base, ds) == ds # <<>> /\ (base = 10 => ds[1] # 0 \/ Len(ds) = 1) /\ \A i \in 1..Len(ds) : ds[i] \in 0..(base - 1)
Factor == [k |-> <<1000>>, M |-> <<1000, 1000>>, G |-> <<1000, 1000, 1000>>,
           ki |-> <<1024>>, Mi |-> <<1024, 1024>>, Gi |-> <<1024, 1024, 1024>>]
Scaled(n, w, suffix) == FoldLeft(LAMBDA x, f : ScaleW(x, f), Fit(n, w), Factor[suffix])
(* ---- integral types *)
Size == [b |-> 1, c |-> 1, h |-> 1, s |-> 2, t |-> 2, i |-> 4, u |-> 4, l |-> 8, m |-> 8]
IsSigned(x) == x \in {"c", "s", "i", "l"}
Promoted(x) == IF Size[x] < 4 THEN "i" ELSE x
Common(x, y) == IF x = y THEN x
                ELSE LET p == Promoted(x) q == Promoted(y) IN
                     IF Size[p] # Size[q] THEN (IF Size[p] > Size[q] THEN p ELSE q)
                     ELSE IF IsSigned(p) THEN q ELSE p
CommonOf(ts) == FoldLeft(Common, ts[1], ts)
(* every value of x is one of y: what an array of y may be listed from *)
Within(x, y) == \/ x = y
                \/ y # "b" /\ x = "b"
                \/ y # "b" /\ x # "b" /\ Size[x] < Size[y] /\ (IsSigned(x) => IsSigned(y))
                \/ y # "b" /\ x # "b" /\ Size[x] = Size[y] /\ IsSigned(x) = IsSigned(y)
Counter == [c |-> "h", h |-> "h", s |-> "t", t |-> "t", i |-> "u", u |-> "u", l |-> "m", m |-> "m"]
CounterS == [c |-> "c", h |-> "c", s |-> "s", t |-> "s", i |-> "i", u |-> "i", l |-> "l", m |-> "l"]
(* ---- what wrapping does: an expression known to the compiler becomes a constant, another stays a value *)
Known == {"lit", "const", "cx", "cxs", "tpl", "nsc", "sum", "cxv", "ic"}
Wrapped(macro, x) ==
  CASE x = "ic" -> "ic"
    [] macro = "CT_WRAP" -> IF x \in Known THEN "ic" ELSE "rt"
    [] OTHER -> IF x \in Known THEN "cx" ELSE "rt"
CanWrap(macro, x) == IF macro = "CX_VALUE" THEN x \in Known \ {"ic", "cxv"} ELSE IF macro = "CT_WRAP" THEN x \notin {"cxv", "ns"} ELSE TRUE
TypeOK == TRUE
Act(op, a) ==
  CASE op = "new" -> Say(op, a, <<>>)
    (* a = <<literal, base, digits, places of separators, spelling>> *)
    [] op = "numeral" -> /\ (Digits(a[2], a[3]) /\ FitsIn(a[1], Bytes[a[1]], a[2], a[3])) = TRUE
                         /\ Say(op, a, Numeral(Bytes[a[1]], a[2], a[3]))
    [] op = "scaled" -> Say(op, a, Scaled(8, Numeral(8, 10, a[2]), a[1]))
    [] op = "field" -> Say(op, a, <<a[1], a[2]>>)
    [] op = "small" -> Say(op, a, <<"ic", "m", a[1]>>)
    [] op = "flag" -> Say(op, a, IF a[1] \in {"b", "true"} THEN 1 ELSE 0)
    (* arrays: a list with or without an element type, or generated from a sequence of numbers *)
    [] op = "list" -> LET ts == [i \in 1..Len(a[2]) |-> a[2][i][1]]
                          t == IF a[1] # "" THEN a[1] ELSE IF ts = <<>> THEN "i" ELSE CommonOf(ts) IN
                      /\ (\A i \in 1..Len(ts) : Within(ts[i], t)) = TRUE
                      /\ Say(op, a, <<t, [i \in 1..Len(ts) |-> a[2][i][2]]>>)
    (* a = <<form, type of the numbers, numbers>>; the generator gives the letter's type and 2x+1, in order, once *)
    [] op = "gen" -> Say(op, a, <<IF a[1] \in {"tseq", "tn"} THEN "s" ELSE "l", [i \in 1..Len(a[3]) |-> 2 * a[3][i] + 1]>>)
    [] op = "pmap" -> Say(op, a, [i \in 1..a[1] |-> 3 * i + 1])
    [] op = "prio" -> /\ (\E k \in Range(a[2]) : k <= a[1]) = TRUE
                      /\ Say(op, a, CHOOSE k \in Range(a[2]) : k <= a[1] /\ \A j \in Range(a[2]) : j <= a[1] => j <= k)
    [] op = "wrap" -> /\ CanWrap(a[1], a[2]) = TRUE
                      /\ Say(op, a, <<Wrapped(a[1], a[2]), a[3], a[4]>>)
    [] op = "wraptype" -> Say(op, a, <<"ty", a[2]>>)
    [] op = "ct" -> Say(op, a, <<"ic", a[1], a[2]>>)
    [] op = "cttype" -> Say(op, a, <<"ty", a[1]>>)
    [] op = "aligned" -> Say(op, a, IF a[2] % a[1] = 0 THEN 1 ELSE 0)
    [] op = "sign" -> Say(op, a, <<IF a[1] = "as_unsigned" THEN Counter[a[2]] ELSE CounterS[a[2]], a[3]>>)
    [] OTHER -> FALSE
===========================================================================
