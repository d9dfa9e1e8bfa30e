------------------------------ MODULE Bitset ------------------------------
(* A fixed-size bit set is a subset of 0..N-1.  Two registers of one type are
   modelled so that binary operations, copies and aliasing are covered.  One
   action per public operation; ev records the operation, its arguments, its
   result and everything a user can observe afterwards. *)
EXTENDS VF

VARIABLES N, reg, ev
vars == <<N, reg, ev>>

Void == -1                       \* no bit set constructed yet
Pos == 0..(N - 1)
Other(r) == 3 - r

(* ---- everything observable of a subset S of 0..n-1 *)
Lowest(S, n) == CHOOSE i \in 0..n : i \notin S /\ \A j \in 0..(i - 1) : j \in S
Obs(S, n) ==
    [bits |-> Sorted(S), cnt |-> Cardinality(S), size |-> Cardinality(S), cap |-> n,
     all |-> S = 0..(n - 1), any |-> S # {}, none |-> S = {}, empty |-> S = {},
     low |-> Lowest(S, n),
     vset |-> Sorted(S), vunset |-> Sorted((0..(n - 1)) \ S),
     vbit |-> [i \in 1..n |-> <<i - 1, B((i - 1) \in S)>>],
     red |-> Sorted(S),
     nat |-> IF n <= 64 THEN Sorted(S) ELSE <<>>]

Out(op, a, res, r, newreg, n) ==
    ev' = [op |-> op, a |-> a, r |-> res,
           o |-> [x |-> Obs(newreg[r], n), other |-> Sorted(newreg[Other(r)]),
                  eq |-> newreg[1] = newreg[2]]]

Init == N = Void /\ reg = <<{}, {}>> /\ ev = [op |-> "", a |-> <<>>, r |-> 0, o |-> <<>>]

(* A register r becomes S. *)
Become(op, a, r, S) ==
    /\ N # Void
    /\ LET nr == [reg EXCEPT ![r] = S] IN
         /\ reg' = nr
         /\ Out(op, a, 0, r, nr, N)
    /\ UNCHANGED N

New(a) == /\ N' = a[1]
          /\ reg' = <<{}, {}>>
          /\ Out("new", a, 0, 1, <<{}, {}>>, a[1])

(* ---- constructors, assigned to register r *)
FromBits(r, bs) == {b \in {bs[i] : i \in 1..Len(bs)} : b < N}
StrBits(chars, pos, n) ==
    LET avail == Len(chars) - pos
        len == IF n < 0 THEN avail ELSE Least(n, avail)
        s == SubSeq(chars, pos + 1, pos + Least(len, N))
    IN {Len(s) - i : i \in {j \in 1..Len(s) : s[j] = 1}}

(* ---- shifts *)
Shl(S, k) == {i \in Pos : i - k \in S}
Shr(S, k) == {i \in Pos : i + k \in S}

(* ---- one action per operation; a is the argument list, a[1] the target register *)
Act(op, a) ==
  CASE op = "new"      -> New(a)
    [] op = "ctor_u64" -> Become(op, a, a[1], FromBits(a[1], a[2]))
    [] op = "ctor_all" -> Become(op, a, a[1], Pos)
    [] op = "ctor_none" -> Become(op, a, a[1], {})
    [] op = "ctor_places" -> Become(op, a, a[1], {a[2][i] : i \in 1..Len(a[2])})
    [] op = "ctor_str" -> Become(op, a, a[1], StrBits(a[2], a[3], a[4]))
    [] op = "ctor_cts" -> Len(a[2]) = N /\ Become(op, a, a[1], StrBits(a[2], 0, -1))
    [] op = "ctor_strx" -> Become(op, a, a[1], StrBits(a[2], a[3], a[4]))
    [] op = "copy"     -> Become(op, a, a[1], reg[a[2]])
    [] op = "set"      -> Become(op, a, a[1], IF a[3] = 1 THEN reg[a[1]] \cup {a[2]} ELSE reg[a[1]] \ {a[2]})
    [] op = "set1"     -> Become(op, a, a[1], reg[a[1]] \cup {a[2]})
    [] op = "set_range" -> Become(op, a, a[1], IF a[4] = 1 THEN reg[a[1]] \cup (a[2]..a[3]) ELSE reg[a[1]] \ (a[2]..a[3]))
    [] op = "set_len"  -> Become(op, a, a[1], LET R == a[2]..(a[2] + a[3] - 1) IN
                                              IF a[4] = 1 THEN reg[a[1]] \cup R ELSE reg[a[1]] \ R)
    [] op = "set_all"  -> Become(op, a, a[1], Pos)
    [] op \in {"reset", "clear"} -> Become(op, a, a[1], reg[a[1]] \ {a[2]})
    [] op \in {"reset_range", "clear_range"} -> Become(op, a, a[1], reg[a[1]] \ (a[2]..a[3]))
    [] op \in {"reset_len", "clear_len"} -> Become(op, a, a[1], reg[a[1]] \ (a[2]..(a[2] + a[3] - 1)))
    [] op \in {"reset_all", "clear_all"} -> Become(op, a, a[1], {})
    [] op = "flip"     -> Become(op, a, a[1], IF a[2] \in reg[a[1]] THEN reg[a[1]] \ {a[2]} ELSE reg[a[1]] \cup {a[2]})
    [] op = "flip_all" -> Become(op, a, a[1], Pos \ reg[a[1]])
    [] op = "or_as"    -> Become(op, a, a[1], reg[a[1]] \cup reg[a[2]])
    [] op = "and_as"   -> Become(op, a, a[1], reg[a[1]] \cap reg[a[2]])
    [] op = "xor_as"   -> Become(op, a, a[1], SymDiff(reg[a[1]], reg[a[2]]))
    [] op = "or"       -> Become(op, a, a[1], reg[a[2]] \cup reg[a[3]])
    [] op = "and"      -> Become(op, a, a[1], reg[a[2]] \cap reg[a[3]])
    [] op = "xor"      -> Become(op, a, a[1], SymDiff(reg[a[2]], reg[a[3]]))
    [] op = "minus"    -> Become(op, a, a[1], reg[a[2]] \ reg[a[3]])
    [] op = "not"      -> Become(op, a, a[1], Pos \ reg[a[2]])
    [] op = "shl_as"   -> Become(op, a, a[1], Shl(reg[a[1]], a[2]))
    [] op = "shr_as"   -> Become(op, a, a[1], Shr(reg[a[1]], a[2]))
    [] op = "shl"      -> Become(op, a, a[1], Shl(reg[a[2]], a[3]))
    [] op = "shr"      -> Become(op, a, a[1], Shr(reg[a[2]], a[3]))
    [] OTHER           -> FALSE

(* ---- properties of the specification *)
TypeOK == /\ N \in {Void} \cup Nat
          /\ N # Void => \A r \in 1..2 : reg[r] \subseteq Pos
Laws ==
  N # Void =>
    LET X == reg[1] Y == reg[2] IN
      /\ Pos \ (X \cup Y) = (Pos \ X) \cap (Pos \ Y)
      /\ X \ Y = X \cap (Pos \ Y)
      /\ SymDiff(SymDiff(X, Y), Y) = X
      /\ \A k \in 0..(N + 1) :
            /\ Shr(Shl(X, k), k) = {i \in X : i + k < N}
            /\ Shl(Shr(X, k), k) = {i \in X : i >= k}
            /\ k >= N => Shl(X, k) = {} /\ Shr(X, k) = {}
      /\ Lowest(X, N) \notin X
      /\ (Lowest(X, N) = N) <=> (X = Pos)
===========================================================================
