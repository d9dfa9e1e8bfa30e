------------------------------ MODULE CxQueue ------------------------------
(* A bounded first-in first-out queue with an overflow policy.
   q is the abstract content; st/pushi/popi/n is the ring buffer that carries it, and
   RingOK states that the ring always represents q.  The ring position is part of the
   state so that every position is distinguished (and replayed) together with every
   content.
   Policies: 0 unsafe (misuse is not legal), 1 safe (misuse panics once, nothing changes),
   2 custom (consulted once per access with the exact size and capacity; here it refuses
   misuse by throwing). *)
EXTENDS VF

VARIABLES cfg, q, st, pushi, popi, n, ev
vars == <<cfg, q, st, pushi, popi, n, ev>>
ring == <<st, pushi, popi, n>>

Void == [cap |-> 0, pol |-> 0, kind |-> 0]
Cap == cfg.cap
Full == Len(q) = Cap
Empty == q = <<>>
MoveOnly == cfg.kind = 2

Obs(c, s, p, log) ==
    [size |-> Len(s), empty |-> s = <<>>, full |-> Len(s) = c.cap, cap |-> c.cap,
     c |-> IF c.kind = 2 THEN <<>> ELSE s, p |-> p, log |-> log]

Init == /\ cfg = Void /\ q = <<>> /\ st = <<>> /\ pushi = 0 /\ popi = 0 /\ n = 0
        /\ ev = [op |-> "", a |-> <<>>, r |-> <<>>, o |-> <<>>]

PushLog == IF cfg.pol = 2 THEN <<<<1, Len(q), Cap>>>> ELSE <<>>
PopLog == IF cfg.pol = 2 THEN <<<<2, Len(q)>>>> ELSE <<>>
Say(op, a, res, s, p, log) ==
    ev' = [op |-> op, a |-> a, r |-> res, o |-> Obs(cfg, s, p, log)]
Refuse(op, a, log) ==
    /\ cfg.pol # 0
    /\ Say(op, a, <<>>, q, IF cfg.pol = 1 THEN 1 ELSE 0, log)
    /\ UNCHANGED <<cfg, q, ring>>

New(a) ==
    /\ cfg' = [cap |-> a[1], pol |-> a[2], kind |-> a[3]]
    /\ q' = <<>> /\ st' = [k \in 0..(a[1] - 1) |-> 0] /\ pushi' = a[1] - 1 /\ popi' = 0 /\ n' = 0
    /\ ev' = [op |-> "new", a |-> a, r |-> <<>>, o |-> Obs([cap |-> a[1], pol |-> a[2], kind |-> a[3]], <<>>, 0, <<>>)]

(* store v as the newest element; the caller sees `seen` through the returned reference *)
Push(op, a, v, seen) ==
    IF Full THEN Refuse(op, a, PushLog)
    ELSE LET i == (pushi + 1) % Cap IN
         /\ q' = Append(q, v)
         /\ st' = [st EXCEPT ![i] = v] /\ pushi' = i /\ n' = n + 1 /\ UNCHANGED <<cfg, popi>>
         /\ Say(op, a, <<seen>>, Append(q, v), 0, PushLog)
Pop(op, a) ==
    IF Empty THEN Refuse(op, a, PopLog)
    ELSE /\ q' = Tail(q)
         /\ popi' = (popi + 1) % Cap /\ n' = n - 1 /\ UNCHANGED <<cfg, st, pushi>>
         /\ Say(op, a, <<Head(q)>>, Tail(q), 0, PopLog)
Look(op, a, idx) ==
    IF Empty THEN Refuse(op, a, PopLog)
    ELSE /\ Say(op, a, <<q[idx]>>, q, 0, PopLog)
         /\ UNCHANGED <<cfg, q, ring>>
Write(op, a, idx, pos) ==
    IF Empty THEN Refuse(op, a, PopLog)
    ELSE LET s == [q EXCEPT ![idx] = a[1]] IN
         /\ q' = s /\ st' = [st EXCEPT ![pos] = a[1]] /\ UNCHANGED <<cfg, pushi, popi, n>>
         /\ Say(op, a, <<a[1]>>, s, 0, PopLog)
Clear(op, a) ==
    /\ q' = <<>> /\ pushi' = Cap - 1 /\ popi' = 0 /\ n' = 0 /\ UNCHANGED <<cfg, st>>
    /\ Say(op, a, <<>>, <<>>, 0, <<>>)
Same(op, a) == Say(op, a, <<>>, q, 0, <<>>) /\ UNCHANGED <<cfg, q, ring>>

Act(op, a) ==
  IF op = "new" THEN New(a) ELSE
  /\ cfg # Void
  /\ CASE op = "push"   -> (a[2] = 1 \/ ~MoveOnly) /\ Push(op, a, a[1], a[1])
       [] op = "pushw"  -> Push(op, a, a[2], a[2])     \* write a[2] through the returned reference
       [] op = "pop"    -> Pop(op, a)
       [] op = "front"  -> Look(op, a, 1)
       [] op = "back"   -> Look(op, a, Len(q))
       [] op = "frontw" -> Write(op, a, 1, popi)
       [] op = "backw"  -> Write(op, a, Len(q), pushi)
       [] op = "clear"  -> Clear(op, a)
       [] op = "copy"   -> ~MoveOnly /\ Same(op, a)    \* continue with a copy
       [] op = "move"   -> Same(op, a)                 \* continue with a moved-to queue
       [] OTHER -> FALSE

(* ---- properties of the specification *)
TypeOK == cfg # Void => Len(q) <= Cap
RingOK == cfg # Void =>
    /\ n = Len(q)
    /\ \A k \in 1..n : st[(popi + k - 1) % Cap] = q[k]
    /\ n > 0 => pushi = (popi + n - 1) % Cap
    /\ n = 0 => (pushi + 1) % Cap = popi
============================================================================
