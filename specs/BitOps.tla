------------------------------- MODULE BitOps -------------------------------
(* Bit utilities: a word of w bits is the set of its one-bits, written in events as the
   ascending list of positions. *)
EXTENDS VF
VARIABLE ev
vars == ev
Top(S) == Max(S)
Width(S) == IF S = {} THEN 0 ELSE Max(S) + 1
NotB(w, S) == (0..(w - 1)) \ S
Clz(w, S) == w - Width(S)
Ctz(w, S) == IF S = {} THEN w ELSE Min(S)
Floor(S) == IF S = {} THEN {} ELSE {Max(S)}
Ceil(S) == IF S = {} THEN {0} ELSE IF Cardinality(S) = 1 THEN S ELSE {Max(S) + 1}
CeilOK(w, S) == IF Cardinality(S) <= 1 THEN TRUE ELSE Max(S) + 1 < w
Swap(w, S) == {8 * (w \div 8 - 1 - (p \div 8)) + (p % 8) : p \in S}
Rot(w, S, s) == {(p + s) % w : p \in S}                 \* TLA+'s % is never negative
Field(S, lo, hi) == {p - lo : p \in {q \in S : q >= lo /\ q < hi}}
(* parts of k bits each, most significant first *)
Split(w, k, S) == [i \in 1..(w \div k) |-> Field(S, w - i * k, w - (i - 1) * k)]
Join(k, parts) == UNION {{p + (Len(parts) - i) * k : p \in parts[i]} : i \in 1..Len(parts)}
Destructure(w, off, S) == LET o == <<0>> \o off \o <<w>> IN [i \in 1..(Len(off) + 1) |-> Field(S, o[i], o[i + 1])]
L(S) == Sorted(S)
Ls(parts) == [i \in 1..Len(parts) |-> L(parts[i])]
Unary == {"clz", "ctz", "clo", "cto", "pop", "single", "width", "floor", "ceil", "bswap", "to_le", "to_be", "from_le", "from_be"}
Un(f, w, S) ==
  CASE f = "clz" -> <<Clz(w, S)>> [] f = "ctz" -> <<Ctz(w, S)>>
    [] f = "clo" -> <<Clz(w, NotB(w, S))>> [] f = "cto" -> <<Ctz(w, NotB(w, S))>>
    [] f = "pop" -> <<Cardinality(S)>> [] f = "single" -> <<B(Cardinality(S) = 1)>> [] f = "width" -> <<Width(S)>>
    [] f = "floor" -> L(Floor(S)) [] f = "ceil" -> L(Ceil(S))
    [] f \in {"bswap", "to_be", "from_be"} -> L(Swap(w, S))          \* a little-endian machine
    [] f \in {"to_le", "from_le"} -> L(S)
Init == ev = [op |-> "", a |-> <<>>, r |-> <<>>, o |-> <<>>]
Become(op, a, res) == ev' = [op |-> op, a |-> a, r |-> res, o |-> <<>>]
Smallest(n) == IF n <= 8 THEN 8 ELSE IF n <= 16 THEN 16 ELSE IF n <= 32 THEN 32 ELSE 64
Act(op, a) ==
  CASE op = "new"    -> Become(op, a, <<>>)
    [] op = "un"     -> (IF a[1] = "ceil" THEN CeilOK(a[2], ToSet(a[3])) ELSE TRUE) /\ Become(op, a, Un(a[1], a[2], ToSet(a[3])))
    [] op = "rotl"   -> Become(op, a, L(Rot(a[1], ToSet(a[2]), a[3])))
    [] op = "rotr"   -> Become(op, a, L(Rot(a[1], ToSet(a[2]), 0 - a[3])))
    [] op = "mask"   -> Become(op, a, L(a[3]..a[2]))       \* a = <<type, msb, lsb>>; run time
    [] op = "maskt"  -> Become(op, a, L(a[3]..a[2]))       \* the same, at compile time
    [] op = "pack"   -> Become(op, a, L(Join(a[2], [i \in 1..Len(a[3]) |-> ToSet(a[3][i])])))
    [] op = "unpack" -> Become(op, a, Ls(Split(a[1], a[2], ToSet(a[3]))))
    [] op = "destr"  -> Become(op, a, Ls(Destructure(a[1], a[2], ToSet(a[3]))))
    [] op = "suint"  -> Become(op, a, <<Smallest(a[1]), Smallest(a[1])>>)
    [] OTHER -> FALSE
TypeOK == TRUE
===========================================================================
