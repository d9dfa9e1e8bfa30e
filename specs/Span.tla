-------------------------------- MODULE Span --------------------------------
(* A view of a run of 16-bit elements: storage data[1..n], and a view <<off, len, ext, const>>.
   ext is the static extent, or Dyn.  off is Null for a view of nothing that was never given storage.
   sto: 0 std::array, 1 built-in array, 2 vector. *)
EXTENDS VF
VARIABLES sto, data, v, ev
vars == <<sto, data, v, ev>>
Void == -1
Dyn == -1
Null == -1
MaxStatic == 6
View(o, n, e, c) == [off |-> o, len |-> n, ext |-> e, cst |-> c]
Nothing == View(Null, 0, Dyn, 0)
Run(d, w) == IF w.len = 0 THEN <<>> ELSE SubSeq(d, w.off + 1, w.off + w.len)
Bytes(s) == [i \in 1..(2 * Len(s)) |-> LET x == s[(i + 1) \div 2] IN IF i % 2 = 1 THEN x % 256 ELSE x \div 256]
Obs(d, w) ==
  LET s == Run(d, w) IN
  [ext |-> w.ext, size |-> w.len, bytes |-> 2 * w.len, empty |-> B(w.len = 0), off |-> w.off, cst |-> w.cst,
   fwd |-> s, cfwd |-> s, idx |-> s, rev |-> Reverse(s), crev |-> Reverse(s),
   ends |-> IF w.len = 0 THEN <<>> ELSE <<s[1], s[w.len]>>,
   raw |-> Bytes(s), data |-> d]
Init == sto = Void /\ data = <<>> /\ v = Nothing /\ ev = [op |-> "", a |-> <<>>, r |-> <<>>, o |-> <<>>]
New(a) == /\ sto' = a[1] /\ data' = a[2] /\ v' = Nothing
          /\ ev' = [op |-> "new", a |-> a, r |-> <<>>, o |-> Obs(a[2], Nothing)]
Become(op, a, d, w, res) == data' = d /\ v' = w /\ UNCHANGED sto /\ ev' = [op |-> op, a |-> a, r |-> res, o |-> Obs(d, w)]
Look(op, a, o, n, e) == Become(op, a, data, View(IF v.off = Null THEN Null ELSE v.off + o, n, e, v.cst), <<>>)
N == Len(data)
StaticOK(n, st) == IF st = 1 THEN n <= MaxStatic ELSE TRUE
Put(d, i, x) == [d EXCEPT ![i] = x]
PutByte(x, hi, b) == IF hi THEN (x % 256) + (256 * b) ELSE (x - (x % 256)) + b
Act(op, a) ==
  IF op = "new" THEN New(a) ELSE
  /\ sto # Void
  /\ CASE op = "none"   -> (* default construction, dynamic or of extent 0 *)
            Become(op, a, data, View(Null, 0, a[1], a[2]), <<>>)
       [] op = "whole"  -> (* a = <<extent, const, how>> *)
            /\ IF a[1] = Dyn THEN TRUE ELSE a[1] <= N /\ a[1] <= MaxStatic /\ (sto = 2 => a[1] = N)
            /\ Become(op, a, data, View(0, IF a[1] = Dyn THEN N ELSE a[1], a[1], a[2]), <<>>)
       [] op = "deduce" -> (* extent found by deduction *)
            Become(op, a, data, View(0, N, IF sto = 2 THEN Dyn ELSE N, a[1]), <<>>)
       [] op = "part"   -> (* a = <<offset, count, extent or Dyn, const, how>> from iterators or a count *)
            /\ a[1] + a[2] <= N /\ a[3] \in {Dyn, a[2]}
            /\ Become(op, a, data, View(a[1], a[2], a[3], a[4]), <<>>)
       [] op = "first"  -> a[1] <= v.len /\ StaticOK(a[1], a[2]) /\ Look(op, a, 0, a[1], IF a[2] = 1 THEN a[1] ELSE Dyn)
       [] op = "last"   -> a[1] <= v.len /\ StaticOK(a[1], a[2]) /\ Look(op, a, v.len - a[1], a[1], IF a[2] = 1 THEN a[1] ELSE Dyn)
       [] op = "sub"    -> (* a = <<offset, count or -1 for the rest, static?>> *)
            LET left == v.len - a[1]
                n == IF a[2] < 0 \/ (a[3] = 0 /\ a[2] > left) THEN left ELSE a[2] IN   \* at run time the count is a limit
            /\ a[1] <= v.len /\ a[1] + n <= v.len /\ StaticOK(a[1], a[3]) /\ StaticOK(n, a[3])
            /\ Look(op, a, a[1], n, IF a[3] = 0 \/ (a[2] < 0 /\ v.ext = Dyn) THEN Dyn ELSE n)
       [] op = "todyn"  -> Become(op, a, data, [v EXCEPT !.ext = Dyn, !.cst = Most(v.cst, a[1])], <<>>)
       [] op = "tostat" -> v.len <= MaxStatic /\ Become(op, a, data, [v EXCEPT !.ext = v.len, !.cst = Most(v.cst, a[1])], <<>>)
       [] op = "write"  -> /\ v.cst = 0 /\ a[1] \in 1..v.len                        \* a = <<position, value, how>>
                           /\ Become(op, a, Put(data, v.off + a[1], a[2]), v, <<>>)
       [] op = "wbyte"  -> /\ v.cst = 0 /\ a[1] \in 1..(2 * v.len)                  \* a = <<byte position, value>>
                           /\ LET i == v.off + ((a[1] + 1) \div 2) IN
                              Become(op, a, Put(data, i, PutByte(data[i], a[1] % 2 = 0, a[2])), v, <<>>)
       [] op = "get"    -> a[1] < v.len /\ a[1] < MaxStatic /\ Become(op, a, data, v, <<Run(data, v)[a[1] + 1]>>)
       [] op = "cap"    -> v.ext # Dyn /\ Become(op, a, data, v, <<v.ext>>)
       [] OTHER -> FALSE
TypeOK == sto # Void => /\ (v.off = Null => v.len = 0) /\ (v.off # Null => v.off + v.len <= N)
                        /\ v.ext \in {Dyn, v.len}
===========================================================================
