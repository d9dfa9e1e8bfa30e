-------------------------------- MODULE Life --------------------------------
(* What happens to objects. mem says which places hold an object and what it is worth: a number, or Spent for one
   whose value was moved away. What an operation does is a sequence of
     <<"n", p, v>> an object worth v is made at p          <<"d", p, 0>> the object at p is destroyed
     <<"c", p, q>> ... as a copy of the one at q           <<"C", p, q>> the object at p is assigned a copy of the one at q
     <<"m", p, q>> ... from the one at q, leaving it spent <<"M", p, q>> the same by assignment
     <<"r", p, v>> the object at p is read as v            <<"w", p, v>> the object at p is given the value v *)
EXTENDS VF
VARIABLES mem, ev
vars == <<mem, ev>>
Spent == -5
Nothing == [p \in {} |-> 0]
Bad == [p \in {0} |-> -9]
Init == mem = Nothing /\ ev = [op |-> "", a |-> <<>>, r |-> <<>>, o |-> <<>>]
Holds(m, p) == p \in DOMAIN m
Put(m, p, v) == [x \in DOMAIN m \cup {p} |-> IF x = p THEN v ELSE m[x]]
Legal(m, e) ==
  CASE e[1] = "n" -> ~Holds(m, e[2])
    [] e[1] \in {"c", "m"} -> ~Holds(m, e[2]) /\ Holds(m, e[3])
    [] e[1] \in {"C", "M"} -> Holds(m, e[2]) /\ Holds(m, e[3])
    [] e[1] = "r" -> Holds(m, e[2]) /\ m[e[2]] = e[3] /\ e[3] # Spent
    [] e[1] \in {"w", "d"} -> Holds(m, e[2])
    [] OTHER -> FALSE
After(m, e) ==
  CASE e[1] \in {"n", "w"} -> Put(m, e[2], e[3])
    [] e[1] \in {"c", "C"} -> Put(m, e[2], m[e[3]])
    [] e[1] \in {"m", "M"} -> IF e[2] = e[3] THEN m ELSE Put(Put(m, e[2], m[e[3]]), e[3], Spent)
    [] e[1] = "d" -> [p \in DOMAIN m \ {e[2]} |-> m[p]]
    [] OTHER -> m
Step(m, e) == IF m = Bad \/ ~Legal(m, e) THEN Bad ELSE After(m, e)
Do(m, es) == FoldLeft(Step, m, es)
Copies(es) == \E i \in 1..Len(es) : es[i][1] \in {"c", "C"}
(* operations of a component that are given nothing but rvalues, and so may not copy *)
OnlyMoves(comp, op, a) ==
  CASE comp = "queue" -> IF op = "push" THEN a[2] = 1 ELSE op \in {"pushw", "pop", "clear", "move", "front", "back", "frontw", "backw"}
    [] comp = "vector" -> IF op = "push" THEN a[3] = 1 ELSE op \in {"pushw", "clear", "write", "getw", "iterw", "riterw", "frontw", "backw", "overwrite", "keep"}
    [] comp = "set" -> IF op = "insert" THEN a[2] = 1 ELSE op \in {"clear"}
    [] comp \in {"map", "multimap"} -> op \in {"clear", "getw", "addall", "getclr", "getins"}
    [] comp = "optional" -> IF op \in {"value_or", "or_else"} THEN a[2] = 1
                            ELSE IF op \in {"transform", "and_then", "pipe"} THEN TRUE
                            ELSE op \notin {"copy_ctor", "copy_assign"}
    [] comp = "lazy" -> op # "copy"
    [] OTHER -> FALSE
(* one operation: what it did (es) and what looking at the result did (ls) *)
Acts(comp, op, a, es, ls) ==
  LET m == Do(IF op = "new" \/ comp = "call" THEN Nothing ELSE mem, es)
      n == IF m = Bad THEN Bad ELSE Do(m, ls) IN
  /\ n # Bad
  /\ (OnlyMoves(comp, op, a) => ~Copies(es)) = TRUE
  (* nothing is left when a history ends *)
  /\ ((op = "end" \/ comp = "call") => n = Nothing) = TRUE
  /\ mem' = n
  /\ ev' = [op |-> op, a |-> a, r |-> <<>>, o |-> <<>>]
===========================================================================
