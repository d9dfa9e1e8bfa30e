------------------------------- MODULE Casts -------------------------------
(* Integer conversions: clamping casts, sign changes, and counts of elements of one size
   expressed as counts of elements of another. *)
EXTENDS Words
VARIABLE ev
vars == ev
Types == {"bool", "char", "schar", "uchar", "short", "ushort", "int", "uint", "long", "ulong", "llong", "ullong",
          "wchar", "char8", "char16", "char32"}
Bytes(t) == CASE t \in {"bool", "char", "schar", "uchar", "char8"} -> 1 [] t \in {"short", "ushort", "char16"} -> 2
              [] t \in {"int", "uint", "wchar", "char32"} -> 4 [] OTHER -> 8
Signed(t) == t \in {"char", "schar", "short", "int", "long", "llong", "wchar"}    \* x86-64 Linux
(* largest and smallest value, as a sign and a magnitude of 9 bytes (so that -2^63 and 2^64-1 both fit) *)
Mag(w) == Fit(9, w)
MaxOf(t) == IF t = "bool" THEN <<FALSE, SmallW(9, 1)>>
            ELSE <<FALSE, Mag([i \in 1..Bytes(t) |-> IF Signed(t) /\ i = Bytes(t) THEN 127 ELSE 255])>>
MinOf(t) == IF Signed(t) THEN <<TRUE, Mag([i \in 1..Bytes(t) |-> IF i = Bytes(t) THEN 128 ELSE 0])>> ELSE <<FALSE, Zeros(9)>>
ValueOf(t, w) == LET x == Decode(w, Signed(t)) IN <<x[1], Mag(x[2])>>
Clamp(x, t) == IF LessS(x, MinOf(t)) THEN MinOf(t) ELSE IF LessS(MaxOf(t), x) THEN MaxOf(t) ELSE x
Sat(f, t, w) == Encode(Bytes(t), Clamp(ValueOf(f, w), t))
(* the least c with c * u >= k * s *)
Ceil(s, u, k) == DivSmall(AddW(ScaleW(k, s), SmallW(8, u - 1)), u)
Sizes == <<1, 2, 4, 8>>
Init == ev = [op |-> "", a |-> <<>>, r |-> <<>>, o |-> <<>>]
Become(op, a, res) == ev' = [op |-> op, a |-> a, r |-> res, o |-> <<>>]
Act(op, a) ==
  CASE op = "new"    -> Become(op, a, <<>>)
    [] op = "sat"    -> Become(op, a, Sat(a[1], a[2], a[3]))
    [] op = "satrow" -> Become(op, a, [i \in 1..(IF a[1] = "bool" THEN 2 ELSE 256) |-> Sat(a[1], a[2], <<i - 1>>)])
    [] op = "size"   -> Become(op, a, Ceil(a[1], a[2], a[3]))
    [] op = "static" -> (* the compile-time spelling: <<bytes, 16-bit, 32-bit, 64-bit units, units of size a[2]>> *)
         Become(op, a, [i \in 1..5 |-> Ceil(a[1], IF i < 5 THEN Sizes[i] ELSE a[2], SmallW(8, a[3]))])
    [] op = "unsign" -> Become(op, a, <<a[2], 0>>)         \* same bits, unsigned
    [] op = "sign"   -> Become(op, a, <<a[2], 1>>)
    [] OTHER -> FALSE
TypeOK == TRUE
===========================================================================
