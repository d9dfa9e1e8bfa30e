------------------------------ MODULE Callables ------------------------------
(* Binders, batches, lazy conversion, overload sets and function objects.  A value is <<type, value, category>>;
   categories "l", "c" (const), "r", "x" (const rvalue), "v" (a new value); "f" marks a std::ref.
   A binder holds copies of the bound values; a std::ref follows its source. *)
EXTENDS VF
VARIABLES b, src, ev
vars == <<b, src, ev>>
Void == <<>>
Init == b = Void /\ src = <<>> /\ ev = [op |-> "", a |-> <<>>, r |-> <<>>, o |-> <<>>]
Becomes(op, a, r, o, nb, ns) == b' = nb /\ src' = ns /\ ev' = [op |-> op, a |-> a, r |-> r, o |-> o]
Same(op, a, r) == Becomes(op, a, r, <<>>, b, src)
Left(args) == [i \in 1..Len(args) |-> IF args[i][3] = "r" THEN 0 ELSE args[i][2]]
(* ---- binders: kind 1 front, 2 back, 3 and 4 the same with the function as template argument;
   take 0: the function looks at its arguments, 1: it takes them by value *)
Whole(nb) == nb # Void /\ ~nb.spent
Bound(x, i) == IF x[3] = "f" THEN <<x[1], i, "f">> ELSE <<x[1], x[2], "">>
Given(cat, take, ns, x) == IF x[3] = "f" THEN <<x[1], ns[x[2]], "f">> ELSE <<x[1], x[2], IF take = 1 THEN "v" ELSE cat>>
Seen(cat, args) ==
  LET bs == [i \in 1..Len(b.bound) |-> Given(cat, b.take, src, b.bound[i])]
      as == [i \in 1..Len(args) |-> <<args[i][1], args[i][2], IF b.take = 1 THEN "v" ELSE args[i][3]>>]
  IN IF b.kind \in {1, 3} THEN bs \o as ELSE as \o bs
Result(ret, n) == CASE ret = 0 -> <<0, "">> [] ret = 1 -> <<n, "v">> [] ret = 2 -> <<n, "l">>
(* the wrapped function counts the calls made to it as a non-const lvalue *)
Count(cat) == IF cat = "l" /\ b.kind \in {1, 2} THEN b.cnt + 1 ELSE b.cnt
CanCall(cat, args) == b.take = 1 => /\ \A i \in 1..Len(args) : args[i][1] = "M" => args[i][3] = "r"
                                    /\ \A i \in 1..Len(b.bound) : b.bound[i][1] = "M" => cat = "r"
Srcs(ns, args) == [i \in 1..Len(args) |-> IF args[i][3] = "r" THEN 0 ELSE ns[i]]
(* ---- batches: argument k goes to batch (k - 1) \div n *)
Batches(args, n, look) == [j \in 1..(Len(args) \div n) |-> [i \in 1..n |-> LET x == args[((j - 1) * n) + i] IN <<x[1], x[2], IF look = 1 THEN x[3] ELSE "c">>]]
Const(c) == c \in {"c", "x"}
Like(t, u) == IF t \in {"l", "c"} THEN (IF Const(t) \/ Const(u) THEN "c" ELSE "l") ELSE (IF Const(t) \/ Const(u) THEN "x" ELSE "r")
Act(op, a) ==
  CASE op = "new"  -> Becomes(op, a, <<>>, <<>>, Void, <<>>)
    [] op = "bind" -> LET xs == a[4] IN
         Becomes(op, a, <<>>, Left(xs), [kind |-> a[1], take |-> a[2], ret |-> a[3], spent |-> FALSE, cnt |-> 0, from |-> xs,
                                         bound |-> [i \in 1..Len(xs) |-> Bound(xs[i], i)]],
                 [i \in 1..Len(xs) |-> xs[i][2]])
    [] op = "poke" -> Whole(b) /\ Becomes(op, a, <<>>, Srcs([src EXCEPT ![a[1]] = a[2]], b.from), b, [src EXCEPT ![a[1]] = a[2]])
    [] op = "copy" -> Whole(b) /\ Becomes(op, a, <<>>, Srcs(src, b.from), b, src)
    [] op = "call" -> /\ Whole(b) /\ CanCall(a[1], a[2])
                      /\ Becomes(op, a, [fn |-> IF b.kind \in {3, 4} THEN "c" ELSE a[1], seen |-> Seen(a[1], a[2]),
                                         res |-> Result(b.ret, Len(a[2]) + Len(b.bound)), calls |-> 1, mine |-> Count(a[1])],
                                 <<Srcs(src, b.from), Left(a[2])>>,
                                 [b EXCEPT !.spent = (a[1] = "r" /\ b.take = 1), !.cnt = Count(a[1])], src)
    [] op = "batch" -> Len(a[3]) % a[1] = 0 /\ Same(op, a, Batches(a[3], a[1], a[2]))
    (* conversions of a lazy value: calls before any, the results, calls afterwards *)
    [] op = "lazy"  -> Same(op, a, <<0, [i \in 1..a[1] |-> i], a[1]>>)
    (* an overload set of one-parameter functions for the types a[1] ("*" any type): which is called *)
    [] op = "over"  -> LET exact == {i \in 1..Len(a[1]) : a[1][i] = a[2]} any == {i \in 1..Len(a[1]) : a[1][i] = "*"} IN
                       /\ Cardinality(exact) <= 1 /\ Cardinality(any) <= 1 /\ exact \cup any # {}
                       /\ Same(op, a, IF exact # {} THEN Min(exact) ELSE Min(any))
    [] op = "like"  -> Same(op, a, Like(a[1], a[2]))
    [] op = "ident" -> Same(op, a, <<<<a[1][1], a[1][2], IF a[1][3] = "r" THEN "v" ELSE a[1][3]>>, IF a[1][3] = "r" THEN 0 ELSE 1>>)
    [] op = "deref" -> Same(op, a, <<<<a[1][1], a[1][2], a[1][3]>>, 1>>)
    [] op = "plus"  -> Same(op, a, a[1])
    [] OTHER -> FALSE
TypeOK == b # Void => Len(b.bound) = Len(src) /\ Len(b.from) = Len(src)
===========================================================================
