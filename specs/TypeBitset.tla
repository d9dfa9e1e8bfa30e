---------------------------- MODULE TypeBitset ----------------------------
(* A type-indexed bit set over a list of types (numbers stand for types; a type may be
   repeated in the list).  The state is a set of types; each distinct type owns the bit
   numbered by its first appearance. *)
EXTENDS VF
VARIABLES cfg, reg, ev
vars == <<cfg, reg, ev>>
Void == <<-1>>
(* the distinct types of a list in order of first appearance: cfg *)
Distinct(l) == LET f == Sorted({i \in 1..Len(l) : \A j \in 1..(i - 1) : l[j] # l[i]})
               IN [k \in 1..Len(f) |-> l[f[k]]]
Idx(c, t) == (CHOOSE i \in 1..Len(c) : c[i] = t) - 1
Other(r) == 3 - r
InOrder(c, S) == SelectSeq(c, LAMBDA t : t \in S)
Obs(c, S, T) ==
    LET d == c n == Len(d) s == InOrder(c, S) u == InOrder(c, ToSet(d) \ S)
        P(q) == [i \in 1..Len(q) |-> <<q[i], Idx(c, q[i])>>] IN
    [has |-> s, cap |-> n, cnt |-> Len(s), size |-> Len(s), empty |-> s = <<>>, all |-> Len(s) = n,
     any |-> s # <<>>, none |-> s = <<>>, vset |-> P(s), vunset |-> P(u),
     nat |-> IF n <= 64 THEN [i \in 1..Len(s) |-> Idx(c, s[i])] ELSE <<>>, eq |-> S = T]
Init == cfg = Void /\ reg = <<{}, {}>> /\ ev = [op |-> "", a |-> <<>>, r |-> 0, o |-> <<>>]
New(a) == /\ cfg' = Distinct(a[2]) /\ reg' = <<{}, {}>>
          /\ ev' = [op |-> "new", a |-> a, r |-> 0, o |-> Obs(Distinct(a[2]), {}, {})]
Become(op, a, r, S) ==
    /\ reg' = [reg EXCEPT ![r] = S]
    /\ ev' = [op |-> op, a |-> a, r |-> 0, o |-> Obs(cfg, S, IF r = 1 THEN reg[2] ELSE reg[1])]
    /\ UNCHANGED cfg
Act(op, a) ==
  IF op = "new" THEN New(a) ELSE
  /\ cfg # Void
  /\ LET r == a[1] S == reg[a[1]] All == ToSet(cfg) IN
     CASE op = "ctor"      -> Become(op, a, r, ToSet(a[2]))
       [] op = "ctor_all"  -> Become(op, a, r, All)
       [] op = "ctor_u64"  -> Become(op, a, r, {cfg[b + 1] : b \in {x \in ToSet(a[2]) : x < Len(cfg)}})
       [] op = "set"       -> Become(op, a, r, S \cup ToSet(a[2]))
       [] op = "setv"      -> Become(op, a, r, IF a[3] = 1 THEN S \cup ToSet(a[2]) ELSE S \ ToSet(a[2]))
       [] op \in {"reset", "clear"} -> Become(op, a, r, S \ ToSet(a[2]))
       [] op = "flip"      -> Become(op, a, r, SymDiff(S, ToSet(a[2])))
       [] op = "set_all"   -> Become(op, a, r, All)
       [] op \in {"reset_all", "clear_all"} -> Become(op, a, r, {})
       [] op = "flip_all"  -> Become(op, a, r, All \ S)
       [] op \in {"or", "or_as"}   -> Become(op, a, r, S \cup reg[a[2]])
       [] op \in {"and", "and_as"} -> Become(op, a, r, S \cap reg[a[2]])
       [] op \in {"xor", "xor_as"} -> Become(op, a, r, SymDiff(S, reg[a[2]]))
       [] op = "minus"     -> Become(op, a, r, S \ reg[a[2]])
       [] op = "not"       -> Become(op, a, r, All \ reg[a[2]])
       [] op = "copy"      -> Become(op, a, r, reg[a[2]])
       [] OTHER -> FALSE
TypeOK == cfg # Void => \A r \in 1..2 : reg[r] \subseteq ToSet(cfg)
(* every distinct type has its own number, and numbers are dense *)
Numbering == cfg # Void => {Idx(cfg, t) : t \in ToSet(cfg)} = 0..(Len(cfg) - 1)
============================================================================
