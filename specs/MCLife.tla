------------------------------- MODULE MCLife -------------------------------
(* All that can happen to objects in three places, with two values, up to Depth steps. What the specification calls
   legal keeps these: a value that was never copied is in at most one place; the objects that live are those made and
   not yet destroyed. *)
EXTENDS Life
CONSTANT Depth
VARIABLES made, gone, dup, n
P == 1..3
mvars == <<vars, made, gone, dup, n>>
Events == ({"n", "w", "r"} \X P \X {1, 2}) \cup ({"c", "m", "C", "M"} \X P \X P) \cup ({"d"} \X P \X {0})
MInit == Init /\ made = 0 /\ gone = 0 /\ dup = {} /\ n = 0
MNext == \E e \in Events :
  /\ n < Depth
  /\ Legal(mem, e)
  (* values are given once *)
  /\ IF e[1] \in {"n", "w"} THEN e[3] \notin {mem[p] : p \in DOMAIN mem} ELSE TRUE
  /\ mem' = After(mem, e) /\ ev' = ev /\ n' = n + 1
  /\ made' = made + (IF e[1] \in {"n", "c", "m"} THEN 1 ELSE 0)
  /\ gone' = gone + (IF e[1] = "d" THEN 1 ELSE 0)
  /\ dup' = dup \cup (IF e[1] \in {"c", "C"} THEN {mem[e[3]]} ELSE {})
MSpec == MInit /\ [][MNext]_mvars
Alive == Cardinality(DOMAIN mem) = made - gone
OneOwner == \A p, q \in DOMAIN mem : (p # q /\ mem[p] = mem[q]) => mem[p] \in dup \cup {Spent}
NoStray == Do(mem, <<>>) = mem /\ \A p \in P \ DOMAIN mem : Do(mem, <<<<"d", p, 0>>>>) = Bad /\ Do(mem, <<<<"r", p, 1>>>>) = Bad
TwiceIsBad == \A p \in DOMAIN mem : Do(mem, <<<<"d", p, 0>>, <<"d", p, 0>>>>) = Bad
===========================================================================
