------------------------------ MODULE MCLinear ------------------------------
(* Laws of linearizable counting: whatever the schedule, fetch-and-add hands out distinct
   values and nothing is lost. *)
EXTENDS Linear, AtomicVal
CONSTANTS NT, Rounds
VARIABLES left, got
mvars == <<vars, left, got>>
MInit == /\ cfg = <<1, <<254>>>> /\ val = <<254>> /\ open = [t \in Threads |-> None]
         /\ ev = [op |-> "", a |-> <<>>, r |-> <<>>, mo |-> <<>>]
         /\ left = [t \in 1..NT |-> Rounds] /\ got = {}
MNext == \/ \E t \in 1..NT : /\ left[t] > 0 /\ Call(t, "fadd", <<-1, 1>>)
                             /\ left' = [left EXCEPT ![t] = @ - 1] /\ UNCHANGED got
         \/ \E t \in 1..NT : Ret(t) /\ got' = got \cup {ev'.r[1]} /\ UNCHANGED left
MSpec == MInit /\ [][MNext]_mvars
MView == <<val, open, left, got>>
Finished == (\A t \in 1..NT : left[t] = 0 /\ open[t] = None)
NothingLost == Finished => /\ val = <<(254 + NT * Rounds) % 256>>
                           /\ Cardinality(got) = NT * Rounds
===========================================================================
