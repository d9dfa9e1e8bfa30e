----------------------------- MODULE AtomicBits -----------------------------
(* The value of an atomic bit set of size n is a subset of 0..n-1.
   cfg = <<n, constructor, argument>>; operations with a memory order have it first. *)
EXTENDS VF
ABPos(c) == 0..(c[1] - 1)
ABInit(c) ==
    CASE c[2] = "none"   -> {}
      [] c[2] = "all"    -> ABPos(c)
      [] c[2] = "value"  -> ToSet(c[3]) \cap ABPos(c)
      [] c[2] = "places" -> ToSet(c[3])
      [] c[2] = "part" ->                  \* first character taken, how many at most, characters
            LET t == SubSeq(c[3], 3 + c[3][1], Len(c[3]))
                s == SubSeq(t, 1, Least(Len(t), Least(c[1], c[3][2])))
            IN {Len(s) - i : i \in {j \in 1..Len(s) : s[j] = 1}}
      [] c[2] \in {"str", "ctstr"} ->      \* characters, most significant first
            LET s == SubSeq(c[3], 1, Least(Len(c[3]), c[1]))
            IN {Len(s) - i : i \in {j \in 1..Len(s) : s[j] = 1}}
Upd(v, S, on) == IF on = 1 THEN v \cup S ELSE v \ S
ABApply(c, v, op, a) ==
    LET old == Sorted(v)
        To(S) == <<S, old>>
        R(l, m) == l..m IN
    CASE op \in {"load", "conv", "to", "nat"} -> <<v, old>>
      [] op = "idx"    -> <<v, <<B(a[1] \in v)>>>>
      [] op = "all"    -> <<v, <<B(v = ABPos(c))>>>>
      [] op = "any"    -> <<v, <<B(v # {})>>>>
      [] op = "none"   -> <<v, <<B(v = {})>>>>
      [] op = "count"  -> <<v, <<Cardinality(v)>>>>
      [] op = "store"  -> <<ToSet(Tail(a)), <<>>>>
      [] op = "set"    -> To(Upd(v, {a[2]}, a[3]))
      [] op = "set1"   -> To(v \cup {a[1]})
      [] op = "setr"   -> To(Upd(v, R(a[2], a[3]), a[4]))
      [] op = "setl"   -> To(Upd(v, R(a[2], a[2] + a[3] - 1), a[4]))
      [] op = "seta"   -> <<ABPos(c), <<>>>>
      [] op = "reset"  -> To(v \ {a[2]})
      [] op = "resetr" -> To(v \ R(a[2], a[3]))
      [] op = "resetl" -> To(v \ R(a[2], a[2] + a[3] - 1))
      [] op = "reseta" -> <<{}, <<>>>>
      [] op = "flip"   -> To(SymDiff(v, {a[2]}))
      [] op = "flipr"  -> To(SymDiff(v, R(a[2], a[3])))
      [] op = "flipl"  -> To(SymDiff(v, R(a[2], a[2] + a[3] - 1)))
      [] op = "flipa"  -> To(ABPos(c) \ v)
ABOrder(op, a) == IF op \in {"conv", "idx", "set1"} \/ a[1] = -1 THEN 5 ELSE a[1]
============================================================================
