------------------------------ MODULE Optional ------------------------------
(* A tombstone optional is a stored value; 0 stands for the sentinel, and the optional is
   engaged exactly when the value is not 0.  Two registers of one type.
   kind: 0 class, 1 integer with inline sentinel, 2 floating point, 3 pointer,
   4 pair and 5 std::tuple of two floating point numbers (value 4x+y), 6 move-only class. *)
EXTENDS VF
VARIABLES kind, reg, ev
vars == <<kind, reg, ev>>
Void == -1
M == 16
Copyable == kind # 6
Tracked(k) == k \in {0, 6}
(* how values compare: the floating point sentinel (infinity) is the greatest component *)
Comp(x) == IF x = 0 THEN 9 ELSE x
Rank(k, v) == IF k \in {4, 5} THEN Comp(v \div 4) * 10 + Comp(v % 4) ELSE v
Less(k, x, y) == IF x # 0 /\ y # 0 THEN Rank(k, x) < Rank(k, y) ELSE x = 0 /\ y # 0
Obs(k, x) ==
    [has |-> <<B(x[1] # 0), B(x[2] # 0)>>, bool |-> <<B(x[1] # 0), B(x[2] # 0)>>,
     val |-> [j \in 1..2 |-> IF x[j] = 0 THEN <<>> ELSE [i \in 1..5 |-> x[j]]],
     cmp |-> <<B(x[1] = x[2]), B(x[1] # x[2]), B(Less(k, x[1], x[2])), B(~Less(k, x[2], x[1])),
               B(Less(k, x[2], x[1])), B(~Less(k, x[1], x[2]))>>,
     live |-> IF Tracked(k) THEN 2 ELSE 0]
Init == kind = Void /\ reg = <<0, 0>> /\ ev = [op |-> "", a |-> <<>>, r |-> <<>>, o |-> <<>>]
New(a) == /\ kind' = a[1] /\ reg' = <<0, 0>>
          /\ ev' = [op |-> "new", a |-> a, r |-> <<>>, o |-> Obs(a[1], <<0, 0>>)]
Become(op, a, x, res) == /\ reg' = x /\ ev' = [op |-> op, a |-> a, r |-> res, o |-> Obs(kind, x)] /\ UNCHANGED kind
Put(op, a, r, v, res) == Become(op, a, [reg EXCEPT ![r] = v], res)
(* the functions handed to transform and friends *)
F(v, k) == (v + k) % M
RECURSIVE Sum(_)
Sum(s) == IF s = <<>> THEN 0 ELSE Head(s) + Sum(Tail(s))
(* result: <<calls, yielded value>>; a call is <<value category, value>> *)
Mapped(v, cat, k) == IF v = 0 THEN <<<<>>, 0>> ELSE <<<<<<cat, v>>>>, F(v, k)>>
Act(op, a) ==
  IF op = "new" THEN New(a) ELSE
  /\ kind # Void
  /\ IF op = "mtransform" THEN                      \* a = <<list of <<register, category>>, k>>
       LET vs == [i \in 1..Len(a[1]) |-> reg[a[1][i][1]]] IN
       Become(op, a, reg, IF \A i \in 1..Len(vs) : vs[i] # 0
                          THEN <<[i \in 1..Len(vs) |-> <<a[1][i][2], vs[i]>>], (Sum(vs) + a[2]) % M>>
                          ELSE <<<<>>, 0>>)
     ELSE IF op = "mstd" THEN                       \* a = <<list of values (0: empty), k>>
       Become(op, a, reg, IF 0 \notin ToSet(a[1]) THEN <<<<1>>, Sum(a[1]) + a[2]>> ELSE <<<<>>, -1>>)
     ELSE LET r == a[1] v == reg[a[1]] IN
     CASE op \in {"ctor_none", "ctor_nullopt", "assign_nullopt", "reset"} -> Put(op, a, r, 0, <<>>)
       [] op \in {"ctor_val", "ctor_inplace", "assign_val"} -> Put(op, a, r, a[2], <<>>)
       [] op = "emplace" -> Put(op, a, r, a[2], <<a[2]>>)
       [] op = "write"   -> Put(op, a, r, a[2], <<>>)               \* a[3]: which accessor
       [] op \in {"copy_ctor", "copy_assign"} -> Copyable /\ Put(op, a, r, reg[a[2]], <<>>)
       [] op \in {"move_ctor", "move_assign"} ->                    \* the source is cleared afterwards
            a[2] # r /\ Become(op, a, [reg EXCEPT ![r] = reg[a[2]], ![a[2]] = 0], <<>>)
       [] op = "value_or" -> (a[2] = 1 \/ Copyable) /\ Put(op, a, r, v, <<IF v = 0 THEN a[3] ELSE v>>)
       [] op \in {"transform", "and_then", "pipe"} -> Put(op, a, r, v, Mapped(v, a[2], a[3]))
       [] op = "or_else" -> (a[2] = 1 \/ Copyable)
                            /\ Put(op, a, r, v, IF v = 0 THEN <<1, a[3]>> ELSE <<0, v>>)
       [] OTHER -> FALSE
TypeOK == kind # Void => reg[1] \in 0..(M - 1) /\ reg[2] \in 0..(M - 1)
(* the comparisons form a total order with the disengaged value at the bottom *)
Order == kind # Void =>
    LET x == reg[1] y == reg[2] IN
    /\ ~(Less(kind, x, y) /\ Less(kind, y, x))
    /\ (x = y) = (~Less(kind, x, y) /\ ~Less(kind, y, x))
    /\ (x = 0 /\ y # 0 => Less(kind, x, y))
============================================================================
