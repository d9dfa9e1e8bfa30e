--------------------------------- MODULE Env ---------------------------------
(* Environments: bindings of queries to values, in numbered slots.  An environment is a function from queries to
   the number of the bound value, 0 where nothing is bound.  Query 4 has a default of its own (99). *)
EXTENDS VF
CONSTANTS Slots, Keys
VARIABLES env, ev
vars == <<env, ev>>
Void == <<>>
Own(k) == IF k = 4 THEN 99 ELSE 0
Empty == [k \in 1..Keys |-> 0]
Answer(e, k) == IF e[k] = 0 THEN Own(k) ELSE e[k]
Obs(en) == [i \in 1..Slots |-> [k \in 1..Keys |-> Answer(en[i], k)]]
Init == env = Void /\ ev = [op |-> "", a |-> <<>>, r |-> <<>>, o |-> <<>>]
Becomes(op, a, r, en) == env' = en /\ ev' = [op |-> op, a |-> a, r |-> r, o |-> Obs(en)]
Distinct(ps) == \A i, j \in 1..Len(ps) : i # j => ps[i][1] # ps[j][1]
Bind(e, ps) == [k \in 1..Keys |-> IF \E i \in 1..Len(ps) : ps[i][1] = k
                                  THEN ps[CHOOSE i \in 1..Len(ps) : ps[i][1] = k][2] ELSE e[k]]
Later(e, f) == [k \in 1..Keys |-> IF f[k] # 0 THEN f[k] ELSE e[k]]
Appended(js) == FoldLeft(Later, Empty, [n \in 1..Len(js) |-> env[js[n]]])
Holders(js, k) == {n \in 1..Len(js) : env[js[n]][k] # 0}
Act(op, a) ==
  CASE op = "new"     -> Becomes(op, a, <<>>, [i \in 1..Slots |-> Empty])
    [] op = "make"    -> Distinct(a[2]) /\ Becomes(op, a, <<>>, [env EXCEPT ![a[1]] = Bind(Empty, a[2])])
    [] op = "extend"  -> Distinct(a[3]) /\ Becomes(op, a, <<>>, [env EXCEPT ![a[1]] = Bind(env[a[2]], a[3])])
    [] op = "append"  -> Becomes(op, a, <<>>, [env EXCEPT ![a[1]] = Appended(a[2])])
    (* an environment made of environments: the first that answers *)
    [] op = "compose" -> Becomes(op, a, [k \in 1..Keys |-> IF Holders(a[1], k) = {} THEN Own(k)
                                                           ELSE env[a[1][Min(Holders(a[1], k))]][k]], env)
    [] op = "query"   -> Becomes(op, a, Answer(env[a[1]], a[2]), env)
    (* with default value 77, given as lvalue or rvalue *)
    [] op = "queryd"  -> Becomes(op, a, IF Answer(env[a[1]], a[2]) = 0 THEN 77 ELSE Answer(env[a[1]], a[2]), env)
    [] OTHER -> FALSE
TypeOK == env = Void \/ \A i \in 1..Slots, k \in 1..Keys : env[i][k] \in 0..98
===========================================================================
