------------------------------- MODULE Panics -------------------------------
(* Explicit panics and detected misuse.  in: a handler is installed for no tag, for T1 and for the
   pair T1, T2 (never for T2 alone).  th: the handlers leave by throwing.  q: a safe queue of cap elements; l: a
   checked doubly-linked list; f: a checked singly-linked list.  Every operation answers with the
   calls its handlers received, in order, and whether it was left by the handler's exception. *)
EXTENDS VF
VARIABLES in, cap, th, q, l, f, ev
vars == <<in, cap, th, q, l, f, ev>>
Void == -1
Init == in = Void /\ cap = 0 /\ th = 0 /\ q = <<>> /\ l = <<>> /\ f = <<>> /\ ev = [op |-> "", a |-> <<>>, r |-> <<>>, o |-> <<>>]
Obs(nq, nl, nf) == [q |-> Len(nq), l |-> nl, f |-> nf]
Become(op, a, calls, nth, nq, nl, nf, left) ==
  /\ th' = nth /\ q' = nq /\ l' = nl /\ f' = nf
  /\ ev' = [op |-> op, a |-> a, r |-> [calls |-> calls, threw |-> B(nth = 1 /\ calls # <<>>), left |-> left], o |-> Obs(nq, nl, nf)]
Fine(op, a, nq, nl, nf, got) == Become(op, a, <<>>, th, nq, nl, nf, got) /\ UNCHANGED <<in, cap>>
(* a misuse only makes sense if the handler does not return *)
Misuse(op, a, msg) == in = 1 /\ th = 1 /\ Become(op, a, <<[h |-> 0, ct |-> 1, msg |-> msg, args |-> <<>>]>>, th, q, l, f, <<>>) /\ UNCHANGED <<in, cap>>
(* tag 0: none, 1: T1, 2: T2, 3: T1, T2.  via 0: run time, 1: compile-time message, 2: macro *)
Handled(tag) == in = 1 /\ tag # 2
Calls(tag, via, msg, args) == IF Handled(tag) THEN <<[h |-> tag, ct |-> B(via # 0), msg |-> msg, args |-> args]>> ELSE <<>>
InList(s, n) == n \in ToSet(s)
(* a node that is alone in its list has no links, so the policy cannot see it *)
Linked(s, n) == InList(s, n) /\ Len(s) > 1
LinkedF(s, n) == InList(s, n) /\ s[Len(s)] # n
Add(op, a, s, n, ok) == IF Linked(s, n) THEN Misuse(op, a, "bad list node!") ELSE ~InList(s, n) /\ ok
AddF(op, a, s, n, ok) == IF LinkedF(s, n) THEN Misuse(op, a, "bad list node!") ELSE ~InList(s, n) /\ ok
Act(op, a) ==
  CASE op = "new" -> in' = a[1] /\ cap' = a[2] /\ Become(op, a, <<>>, 0, <<>>, <<>>, <<>>, <<>>)
    [] op = "mode" -> in # Void /\ UNCHANGED <<in, cap>> /\ Become(op, a, <<>>, a[1], q, l, f, <<>>)
    [] op = "panic" -> /\ in # Void /\ UNCHANGED <<in, cap>>
                       /\ (a[2] = 2 => a[1] = 0) /\ (a[2] = 0 => a[3] = "")
                       /\ Become(op, a, Calls(a[1], a[2], a[3], a[4]), th, q, l, f, [i \in 1..Len(a[4]) |-> a[4][i][2]])
    [] op = "qpush" -> IF Len(q) = cap THEN Misuse(op, a, "cx_queue overflow!") ELSE in # Void /\ Fine(op, a, Append(q, a[1]), l, f, <<>>)
    [] op = "qpop"  -> IF q = <<>> THEN Misuse(op, a, "cx_queue underflow!") ELSE in # Void /\ Fine(op, a, Tail(q), l, f, <<q[1]>>)
    [] op = "qpeek" -> IF q = <<>> THEN Misuse(op, a, "cx_queue underflow!") ELSE in # Void /\ Fine(op, a, q, l, f, <<q[1]>>)
    [] op = "qclear" -> in # Void /\ Fine(op, a, <<>>, l, f, <<>>)
    [] op = "lfront" -> in # Void /\ Add(op, a, l, a[1], Fine(op, a, q, <<a[1]>> \o l, f, <<>>))
    [] op = "lback"  -> in # Void /\ Add(op, a, l, a[1], Fine(op, a, q, Append(l, a[1]), f, <<>>))
    [] op = "lins"   -> in # Void /\ a[2] <= Len(l) /\ Add(op, a, l, a[1], Fine(op, a, q, SubSeq(l, 1, a[2]) \o <<a[1]>> \o SubSeq(l, a[2] + 1, Len(l)), f, <<>>))
    [] op = "lrm"    -> in # Void /\ InList(l, a[1]) /\ Fine(op, a, q, SelectSeq(l, LAMBDA x : x # a[1]), f, <<>>)
    [] op = "lpopb"  -> in # Void /\ l # <<>> /\ Fine(op, a, q, SubSeq(l, 1, Len(l) - 1), f, <<l[Len(l)]>>)
    [] op = "lclear" -> in # Void /\ Fine(op, a, q, <<>>, f, <<>>)
    [] op = "ffront" -> in # Void /\ AddF(op, a, f, a[1], Fine(op, a, q, l, <<a[1]>> \o f, <<>>))
    [] op = "fback"  -> in # Void /\ AddF(op, a, f, a[1], Fine(op, a, q, l, Append(f, a[1]), <<>>))
    [] op = "fpop"   -> in # Void /\ f # <<>> /\ Fine(op, a, q, l, Tail(f), <<f[1]>>)
    [] op = "fclear" -> in # Void /\ Fine(op, a, q, l, <<>>, <<>>)
    [] OTHER -> FALSE
TypeOK == Len(q) <= cap
(* at most one call per operation, and none that changes the containers *)
Once == [][ev'.op \notin {"", "new"} => Len(ev'.r.calls) <= 1 /\ (ev'.r.calls # <<>> => <<q, l, f>>' = <<q, l, f>>)]_vars
===========================================================================
