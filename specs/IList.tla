------------------------------- MODULE IList -------------------------------
(* Intrusive lists: two lists over nodes 1..N owned by the user.  A node is a member of at
   most one list.  The links of members are defined by the sequence they are in; a node
   outside any list carries whatever links it was left with (lk).

   kind: 0 doubly-linked list, 1 singly-linked list, 2 singly-linked list whose nodes also
   have a prev member.  pol: 0 checked, 1 unchecked.  mode: 1 if the links of nodes outside
   the lists are specified and observed, 0 if only the lists themselves are. *)
EXTENDS VF
VARIABLES cfg, l, lk, ev
vars == <<cfg, l, lk, ev>>
Void == [kind |-> -1, pol |-> 0, mode |-> 0, n |-> 0]
Checked == cfg.pol = 0
HasPrev(c) == c.kind # 1
Dbl(c) == c.kind = 0
Nodes(c) == 1..c.n
Where(x, n) == IF n \in ToSet(x[1]) THEN 1 ELSE IF n \in ToSet(x[2]) THEN 2 ELSE 0
Pos(s, n) == CHOOSE i \in 1..Len(s) : s[i] = n
(* the links a node carries now: <<next, prev>>, 0 is null *)
Link(c, x, k, n) ==
    LET w == Where(x, n) IN
    IF w = 0 THEN k[n]
    ELSE LET s == x[w] i == Pos(x[w], n) IN
         << IF i = Len(s) THEN 0 ELSE s[i + 1],
            IF Dbl(c) THEN (IF i = 1 THEN 0 ELSE s[i - 1]) ELSE k[n][2] >>
Obs(c, x, k) ==
    [fwd |-> x, cfwd |-> x, empty |-> <<B(x[1] = <<>>), B(x[2] = <<>>)>>,
     fb |-> [j \in 1..2 |-> IF x[j] = <<>> THEN <<>> ELSE <<x[j][1], x[j][Len(x[j])]>>],
     back |-> IF Dbl(c) THEN [j \in 1..2 |-> Reverse(x[j])] ELSE <<<<>>, <<>>>>,
     links |-> [n \in Nodes(c) |-> IF (Where(x, n) # 0 /\ Dbl(c)) \/ c.mode = 1 THEN Link(c, x, k, n)
                                   ELSE IF Where(x, n) # 0 THEN <<Link(c, x, k, n)[1], 0>> ELSE <<0, 0>>]]
Init == /\ cfg = Void /\ l = <<<<>>, <<>>>> /\ lk = <<>>
        /\ ev = [op |-> "", a |-> <<>>, r |-> <<>>, o |-> <<>>]
New(a) == LET c == [kind |-> a[1], pol |-> a[2], mode |-> a[3], n |-> a[4]]
              k == [n \in 1..a[4] |-> <<0, 0>>] IN
    /\ cfg' = c /\ l' = <<<<>>, <<>>>> /\ lk' = k
    /\ ev' = [op |-> "new", a |-> a, r |-> <<>>, o |-> Obs(c, <<<<>>, <<>>>>, k)]
(* the links outside the lists matter only if something depends on them *)
Track(c, x, k) == [n \in Nodes(c) |-> IF c.mode = 0 /\ c.pol = 1 THEN <<0, 0>>
                                      ELSE IF Where(x, n) # 0 /\ Dbl(c) THEN <<0, 0>>
                                      ELSE IF Where(x, n) # 0 THEN <<0, k[n][2]>> ELSE k[n]]
Become(op, a, x, k, res) ==
    /\ l' = x /\ lk' = Track(cfg, x, k)
    /\ ev' = [op |-> op, a |-> a, r |-> res, o |-> Obs(cfg, x, k)]
    /\ UNCHANGED cfg
(* adding node n to list j so that it becomes s: r[1] counts the panics *)
Add(op, a, j, n, s) ==
    LET now == Link(cfg, l, lk, n)
        linked == now[1] # 0 \/ (HasPrev(cfg) /\ now[2] # 0) IN
    IF Checked /\ linked THEN Become(op, a, l, lk, <<1>>)
    ELSE Where(l, n) = 0 /\ Become(op, a, [l EXCEPT ![j] = s], lk, <<0>>)
(* node n leaves list j, which becomes s; a checked list wipes the links of n, an unchecked
   one leaves them as they were *)
Leave(op, a, j, s, ns, res) ==
    Become(op, a, [l EXCEPT ![j] = s],
           [n \in Nodes(cfg) |-> IF n \notin ns THEN lk[n]
                                 ELSE IF Checked THEN <<0, 0>> ELSE Link(cfg, l, lk, n)], res)
Act(op, a) ==
  IF op = "new" THEN New(a) ELSE
  /\ cfg # Void
  /\ IF op = "dirty"
     THEN /\ Where(l, a[1]) = 0 /\ (HasPrev(cfg) \/ a[3] = 0)
          /\ Become(op, a, l, [lk EXCEPT ![a[1]] = <<a[2], a[3]>>], <<>>)
     ELSE LET j == a[1] s == l[a[1]] IN
     CASE op = "pushf" -> Add(op, a, j, a[2], <<a[2]>> \o s)
       [] op = "pushb" -> Add(op, a, j, a[2], Append(s, a[2]))
       [] op = "ins"   -> Dbl(cfg) /\ a[2] <= Len(s)
                          /\ Add(op, a, j, a[3], SubSeq(s, 1, a[2]) \o <<a[3]>> \o SubSeq(s, a[2] + 1, Len(s)))
       [] op = "popf"  -> s # <<>> /\ Leave(op, a, j, Tail(s), {s[1]}, <<s[1]>>)
       [] op = "popb"  -> Dbl(cfg) /\ s # <<>> /\ Leave(op, a, j, SubSeq(s, 1, Len(s) - 1), {s[Len(s)]}, <<s[Len(s)]>>)
       [] op = "rm"    -> Dbl(cfg) /\ Where(l, a[2]) = j
                          /\ Leave(op, a, j, SelectSeq(s, LAMBDA x : x # a[2]), {a[2]}, <<>>)
       [] op = "clear" -> Leave(op, a, j, <<>>, ToSet(s), <<>>)
       [] OTHER -> FALSE
TypeOK == cfg # Void =>
    /\ Cardinality(ToSet(l[1]) \cup ToSet(l[2])) = Len(l[1]) + Len(l[2])
    /\ \A n \in Nodes(cfg) : Link(cfg, l, lk, n)[1] \in 0..cfg.n
(* links of members are mirror images *)
Mirror == cfg # Void /\ Dbl(cfg) =>
    \A j \in 1..2 : \A n \in ToSet(l[j]) :
        LET k == Link(cfg, l, lk, n) IN
        /\ k[1] # 0 => Link(cfg, l, lk, k[1])[2] = n
        /\ k[2] # 0 => Link(cfg, l, lk, k[2])[1] = n
(* a checked list hands nodes back clean; a panic changes nothing *)
Clean == [][ cfg # Void /\ Checked /\ cfg' = cfg =>
             /\ (ev'.op \in {"popf", "popb", "rm", "clear"} =>
                   \A n \in Nodes(cfg) : Where(l, n) # 0 /\ Where(l', n) = 0 => lk'[n] = <<0, 0>>)
             /\ (ev'.r = <<1>> /\ ev'.op \in {"pushf", "pushb", "ins"} => l' = l /\ lk' = lk) ]_vars
============================================================================
