------------------------------ MODULE Linear ------------------------------
(* One shared object and any number of threads.  An operation is called, takes effect at
   one instant, and returns; what it does at that instant is given by Apply(cfg, val, op, args)
   = <<new value, result>>.  Order(op, args) is the memory order the caller asked for.

   Effects may be delayed until just before the next return, so every return is explained
   by letting some of the open calls take effect in some order, the returning one among
   them; no other step is needed. *)
EXTENDS VF
CONSTANTS Apply(_, _, _, _), Order(_, _), InitVal(_)
VARIABLES cfg, val, open, ev
vars == <<cfg, val, open, ev>>
(* open: thread -> [op, a, done, res] for calls that have not returned *)
None == [op |-> "", a |-> <<>>, done |-> FALSE, res |-> <<>>]
Threads == 1..4
Init == /\ cfg = <<>> /\ val = <<>> /\ open = [t \in Threads |-> None]
        /\ ev = [op |-> "", a |-> <<>>, r |-> <<>>, mo |-> <<>>]
Begin(a) == /\ cfg' = a /\ val' = InitVal(a) /\ open' = [t \in Threads |-> None]
            /\ ev' = [op |-> "init", a |-> a, r |-> <<>>, mo |-> <<>>]
Call(t, op, a) == /\ open[t] = None
                  /\ open' = [open EXCEPT ![t] = [op |-> op, a |-> a, done |-> FALSE, res |-> <<>>]]
                  /\ ev' = [op |-> "call", a |-> <<t, op, a>>, r |-> <<>>, mo |-> <<>>]
                  /\ UNCHANGED <<cfg, val>>
(* let the calls of the threads in s take effect, in that order *)
RECURSIVE Effects(_, _, _)
Effects(v, o, s) ==
    IF s = <<>> THEN <<v, o>>
    ELSE LET t == Head(s)
             x == Apply(cfg, v, o[t].op, o[t].a)
         IN Effects(x[1], [o EXCEPT ![t].done = TRUE, ![t].res = x[2]], Tail(s))
Waiting == {t \in Threads : open[t] # None /\ ~open[t].done}
Orders(S) == UNION {SetToSeqs(X) : X \in SUBSET S}     \* every order of every subset
Ret(t) == /\ open[t] # None
          /\ \E s \in (IF open[t].done THEN {<<>>} ELSE {q \in Orders(Waiting) : q # <<>> /\ Last(q) = t}) :
               LET x == Effects(val, open, s) IN
               /\ val' = x[1]
               /\ open' = [x[2] EXCEPT ![t] = None]
               /\ ev' = [op |-> "ret", a |-> <<t>>, r |-> x[2][t].res, mo |-> <<Order(open[t].op, open[t].a)>>]
          /\ UNCHANGED cfg
============================================================================
