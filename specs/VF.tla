-------------------------------- MODULE VF --------------------------------
(* Helpers shared by all specifications. *)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt, FiniteSetsExt, TLC

Sorted(S) == SetToSortSeq(S, <)
Range0(n) == 0..(n - 1)
Least(a, b) == IF a < b THEN a ELSE b
Most(a, b) == IF a > b THEN a ELSE b
MapSeq(f(_), s) == [i \in 1..Len(s) |-> f(s[i])]
B(b) == IF b THEN 1 ELSE 0
Pow2(n) == 2^n
===========================================================================
