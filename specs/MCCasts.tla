------------------------------ MODULE MCCasts ------------------------------
EXTENDS Casts, Json
VARIABLE st
Elems == {1, 2, 3, 4, 5, 6, 7, 8, 12, 16}
Next ==
  \/ st = 0 /\ st' = 1 /\ Act("new", <<>>)
  \/ /\ st = 1 /\ st' = 1
     /\ \/ \E f \in {t \in Types : Bytes(t) = 1}, t \in Types : Act("satrow", <<f, t>>)
        \/ \E s, u \in Elems, k \in 0..20 : Act("size", <<s, u, SmallW(8, k)>>)
        \/ \E s \in {1, 2, 4, 8}, u \in {1, 3, 8}, k \in 0..32 : Act("static", <<s, u, k>>)
Spec == Init /\ st = 0 /\ [][Next]_<<vars, st>>
View == st
Emit == PrintT(ToJson([s |-> st, e |-> ev', t |-> st']))
(* laws of the specification *)
Probe(f) == {MinOf(f), MaxOf(f), <<FALSE, Zeros(9)>>, <<FALSE, SmallW(9, 1)>>}
Fits(x, t) == ~LessS(x, MinOf(t)) /\ ~LessS(MaxOf(t), x)
ASSUME \A f, t \in Types : \A x \in Probe(f) :
          /\ Fits(Clamp(x, t), t)
          /\ (Fits(x, t) => Clamp(x, t) = x)
          /\ ValueOf(t, Encode(Bytes(t), Clamp(x, t))) = Clamp(x, t)
ASSUME \A s, u \in Elems, k \in 0..20 : LET w == Ceil(s, u, SmallW(8, k)) c == w[1] + 256 * w[2] IN c * u >= k * s /\ (c = 0 \/ (c - 1) * u < k * s)
===========================================================================
