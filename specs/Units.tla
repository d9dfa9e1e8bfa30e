------------------------------- MODULE Units -------------------------------
(* A program of several translation units that share library objects. Before main every unit does what its plan
   says; in which order the units get their turn is open, a unit is not interrupted. Then main calls units.
   plan[u] is a sequence of <<operation, number>>; c is what the shared objects hold. *)
EXTENDS VF
VARIABLES plan, c, ev
vars == <<plan, c, ev>>
Nothing == [bits |-> {}, vec |-> <<>>, queue |-> <<>>, keys |-> {}, pairs |-> {}, rel |-> {}, opt |-> <<>>, roll |-> 0, list |-> <<>>,
            chain |-> <<>>, count |-> 0, marks |-> {}, lazy |-> 0, renew |-> 0, three |-> 0, panics |-> 0, tags |-> <<0, 0, 0, 0>>]
Init == plan = <<>> /\ c = Nothing /\ ev = [op |-> "", a |-> <<>>, r |-> <<>>, o |-> <<>>]
Has(s, x) == \E i \in 1..Len(s) : s[i] = x
Name == <<1, 2, 2, 1, 3, 4>>  \* six ways to write four names
Fresh(s, k) == \A p \in s : p[1] # k
Legal(s, op, n) ==
  CASE op = "deq"    -> s.queue # <<>>
    [] op = "unlink" -> s.list # <<>>
    [] op = "link"   -> ~Has(s.list, n)
    [] op = "chain"  -> ~Has(s.chain, n)
    [] OTHER         -> TRUE
After(s, op, n) ==
  CASE op = "bit"    -> [s EXCEPT !.bits = @ \cup {n}]
    [] op = "push"   -> [s EXCEPT !.vec = Append(@, n)]
    [] op = "enq"    -> [s EXCEPT !.queue = Append(@, n)]
    [] op = "deq"    -> [s EXCEPT !.queue = Tail(@)]
    [] op = "key"    -> [s EXCEPT !.keys = @ \cup {n}]
    [] op = "pair"   -> [s EXCEPT !.pairs = {p \in @ : p[1] # n % 10} \cup {<<n % 10, n>>}]
    [] op = "relate" -> [s EXCEPT !.rel = @ \cup {<<n % 5, n>>}]
    [] op = "opt"    -> [s EXCEPT !.opt = <<n>>]
    [] op = "roll"   -> [s EXCEPT !.roll = (@ + n) % 256]
    [] op = "link"   -> [s EXCEPT !.list = Append(@, n)]
    [] op = "unlink" -> [s EXCEPT !.list = Tail(@)]
    [] op = "chain"  -> [s EXCEPT !.chain = <<n>> \o @]
    [] op = "fetch"  -> [s EXCEPT !.count = @ + n]
    [] op = "mark"   -> [s EXCEPT !.marks = @ \cup {n}]
    [] op = "lazy"   -> [s EXCEPT !.lazy = 1]
    [] op = "renew"  -> [s EXCEPT !.renew = @ + 1]
    [] op = "three"  -> [s EXCEPT !.three = @ + n]
    [] op = "tag"    -> [s EXCEPT !.tags[Name[n + 1]] = @ + 1]
    [] op = "panic"  -> [s EXCEPT !.panics = @ + 1]
Result(s, op, n) ==
  CASE op = "bit"    -> Cardinality(s.bits \cup {n})
    [] op \in {"push", "enq", "link", "chain"} -> n
    [] op = "deq"    -> Head(s.queue)
    [] op = "key"    -> B(n \notin s.keys)
    [] op = "pair"   -> B(Fresh(s.pairs, n % 10))
    [] op = "relate" -> 1
    [] op = "opt"    -> Len(s.opt)
    [] op = "roll"   -> (s.roll + n) % 256
    [] op = "unlink" -> Head(s.list)
    [] op = "fetch"  -> s.count
    [] op = "mark"   -> Cardinality(s.marks)
    [] op = "lazy"   -> 42
    [] op = "renew"  -> s.renew + 1
    [] op = "three"  -> s.three + n
    [] op = "tag"    -> s.tags[Name[n + 1]] + 1
    [] op = "panic"  -> s.panics + 1
Ranked(S) == SetToSortSeq(S, LAMBDA p, q : p[1] < q[1] \/ (p[1] = q[1] /\ p[2] < q[2]))
Shown(s) == [s EXCEPT !.bits = Sorted(@), !.keys = Sorted(@), !.marks = Sorted(@), !.pairs = Ranked(@), !.rel = Ranked(@)]
Turn(s, acts) == FoldLeft(LAMBDA x, a : After(x, a[1], a[2]), s, acts)
Orders(k) == {f \in [1..k -> 1..k] : \A i, j \in 1..k : f[i] = f[j] => i = j}
Started(p) == {FoldLeft(LAMBDA x, u : Turn(x, p[u]), Nothing, f) : f \in Orders(Len(p))}
Act(op, a) ==
  CASE op = "new"   -> (* <<number of units>> *) plan' = [u \in 1..a[1] |-> <<>>] /\ c' = Nothing /\ ev' = [op |-> op, a |-> a, r |-> <<>>, o |-> <<>>]
    [] op = "plan"  -> (* <<unit, operation, number>> *) plan' = [plan EXCEPT ![a[1]] = Append(@, <<a[2], a[3]>>)] /\ c' = c /\ ev' = [op |-> op, a |-> a, r |-> <<>>, o |-> <<>>]
    [] op = "start" -> plan' = plan /\ c' \in Started(plan) /\ ev' = [op |-> op, a |-> a, r |-> <<>>, o |-> Shown(c')]
    [] op = "call"  -> (* <<unit, operation, number>> *) Legal(c, a[2], a[3]) /\ plan' = plan /\ c' = After(c, a[2], a[3])
                       /\ ev' = [op |-> op, a |-> a, r |-> Result(c, a[2], a[3]), o |-> Shown(c')]
    [] OTHER -> FALSE
(* the part that does not depend on the order of the units *)
Settled(s) == <<s.bits, s.keys, s.rel, s.roll, s.count, s.marks, s.lazy, s.renew, s.three, s.panics, s.tags, Len(s.opt), Len(s.queue), Len(s.list),
                {s.vec[i] : i \in 1..Len(s.vec)}, {p[1] : p \in s.pairs}>>
TypeOK == c.lazy \in {0, 1} /\ \A p, q \in c.pairs : p[1] = q[1] => p = q
===========================================================================
