-------------------------------- MODULE Big --------------------------------
(* Bounded containers of any capacity.  The elements are consecutive numbers, so that the
   whole content is lo..hi-1 and neither the state nor an observation grows with it: counters
   and positions that are too narrow for a capacity show here.
   Kinds: queue (the oldest leaves first), vector (the newest leaves first), set, map (k has
   the value k + 7), keys (multimap, one value each), values (multimap, all of one key), and
   span (starts with everything, loses elements at both ends). *)
EXTENDS VF
VARIABLES cfg, lo, hi, ev
vars == <<cfg, lo, hi, ev>>
Void == [kind |-> "none", cap |-> 0]
Hashed == {"set", "map", "keys", "values"}
Ordered == {"queue", "vector", "span"}
Kinds == Ordered \cup Hashed
Start(c) == IF c.kind = "span" THEN c.cap ELSE 0
N == hi - lo
(* size, empty, count and least and greatest of an iteration; full where there is such a question; ends *)
Obs(c, l, h) ==
    [size |-> h - l, empty |-> B(h = l), cap |-> c.cap, count |-> h - l,
     span |-> IF h = l THEN <<>> ELSE <<l, h - 1>>,
     full |-> IF c.kind \in {"queue", "vector", "map"} THEN <<B(h - l = c.cap)>> ELSE <<>>,
     ends |-> IF c.kind \in Ordered /\ h > l THEN <<l, h - 1>> ELSE <<>>]
Init == cfg = Void /\ lo = 0 /\ hi = 0 /\ ev = [op |-> "", a |-> <<>>, r |-> <<>>, o |-> <<>>]
Say(op, a, res, l, h) ==
    /\ lo' = l /\ hi' = h /\ UNCHANGED cfg
    /\ ev' = [op |-> op, a |-> a, r |-> res, o |-> Obs(cfg, l, h)]
Act(op, a) ==
  IF op = "new" THEN
    LET c == [kind |-> a[1], cap |-> a[2]] IN
    /\ cfg' = c /\ lo' = 0 /\ hi' = Start(c) /\ ev' = [op |-> op, a |-> a, r |-> <<>>, o |-> Obs(c, 0, Start(c))]
  ELSE
  /\ cfg # Void
  /\ CASE op = "add"   -> (* the next a[1] numbers *) cfg.kind # "span" /\ N + a[1] <= cfg.cap /\ Say(op, a, <<>>, lo, hi + a[1])
       [] op = "drop"  -> (* a[1] numbers leave; the first and the last of them, or how many were erased *)
            /\ a[1] \in 1..N
            /\ IF cfg.kind = "vector" THEN Say(op, a, <<hi - 1, hi - a[1]>>, lo, hi - a[1])
               ELSE IF cfg.kind \in {"queue", "span"} THEN Say(op, a, <<lo, lo + a[1] - 1>>, lo + a[1], hi)
               ELSE Say(op, a, <<a[1]>>, lo + a[1], hi)
       [] op = "trim"  -> (* the newest a[1] leave *) cfg.kind = "span" /\ a[1] \in 0..N /\ Say(op, a, <<>>, lo, hi - a[1])
       [] op = "again" -> (* numbers that are there already, offered once more: how many were taken *)
            cfg.kind \in Hashed /\ N > 0 /\ Say(op, a, <<0>>, lo, hi)
       [] op = "seek"  -> (* is a[1] there, and what is kept with it *)
            /\ cfg.kind \in Hashed
            /\ Say(op, a, IF a[1] \in lo..(hi - 1) THEN IF cfg.kind = "map" THEN <<1, a[1] + 7>> ELSE <<1>> ELSE <<0>>, lo, hi)
       [] op = "at"    -> cfg.kind \in {"vector", "span"} /\ a[1] < N /\ Say(op, a, <<lo + a[1], lo + a[1]>>, lo, hi)
       [] op = "copy"  -> Say(op, a, <<>>, lo, hi)
       [] op = "clear" -> Say(op, a, <<>>, 0, 0)
       [] OTHER -> FALSE
TypeOK == cfg # Void => lo <= hi /\ N <= cfg.cap
=============================================================================
