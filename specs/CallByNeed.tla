------------------------------ MODULE CallByNeed ------------------------------
(* Calling a list of functions with as much as each needs from a list of arguments.
   An argument is <<type, value, category>> with category "l" (modifiable lvalue), "c" (const lvalue) or "r".
   A function is <<kind of result, signatures>>; a signature is a sequence of parameters <<type, kind, default>>:
   kind "v" by value, "c" by const reference, "l" by lvalue reference, "r" by rvalue reference; default 1 if the
   parameter has a default (whose value is 42).  Type "*" is a parameter of any type and the signature
   <<<<"...", "", 0>>>> takes anything.  I and H stand for int and char, which convert to each other.
   Results: 0 void, 1 a value, 2 a reference. *)
EXTENDS VF
VARIABLE ev
vars == ev
Init == ev = [op |-> "", a |-> <<>>, r |-> <<>>, o |-> <<>>]
Say(op, a, r, o) == ev' = [op |-> op, a |-> a, r |-> r, o |-> o]
Numeric == {"I", "H"}
TypeFits(p, x) == p = "*" \/ p = x \/ (p \in Numeric /\ x \in Numeric)
KindFits(p, x) ==                                       \* p parameter, x argument
  CASE p[2] = "v" -> (x[1] = "M" => x[3] = "r")
    [] p[2] = "c" -> TRUE
    [] p[2] = "l" -> x[3] = "l" /\ (p[1] = x[1] \/ p[1] = "*")
    [] p[2] = "r" -> x[3] = "r" \/ (p[1] \in Numeric /\ x[1] \in Numeric /\ p[1] # x[1])
TakesAll(s) == Len(s) = 1 /\ s[1][1] = "..."
Least1(s) == Cardinality({i \in 1..Len(s) : s[i][3] = 0})  \* parameters without default come first
SigTakes(s, run) == IF TakesAll(s) THEN TRUE
  ELSE /\ Len(run) >= Least1(s) /\ Len(run) <= Len(s)
       /\ \A i \in 1..Len(run) : TypeFits(s[i][1], run[i][1]) /\ KindFits(s[i], run[i])
Takes(f, run) == \E k \in 1..Len(f[2]) : SigTakes(f[2][k], run)
Run(args, b, n) == SubSeq(args, b + 1, b + n)
Bases(args) == 0..Most(Len(args) - 1, 0)
Lens(f, args, b) == {n \in 0..(Len(args) - b) : Takes(f, Run(args, b, n))}
Callable(f, args) == \E b \in Bases(args) : Lens(f, args, b) # {}
BaseOf(f, args) == Min({b \in Bases(args) : Lens(f, args, b) # {}})
LenOf(f, args) == Max(Lens(f, args, BaseOf(f, args)))
Defaults(f, run) == IF \E k \in 1..Len(f[2]) : TakesAll(f[2][k]) /\ Len(f[2]) = 1 THEN <<>>
  ELSE LET s == CHOOSE s \in Range(f[2]) : SigTakes(s, run) IN
       [i \in 1..(Len(s) - Len(run)) |-> <<s[Len(run) + i][1], 42>>]
(* what the parameters show: converted to the parameter's type *)
Shown(f, run) == LET s == CHOOSE s \in Range(f[2]) : SigTakes(s, run) IN
  [i \in 1..Len(run) |-> <<IF TakesAll(s) THEN run[i][1] ELSE IF s[i][1] = "*" THEN run[i][1] ELSE s[i][1], run[i][2]>>]
CallOf(fs, args, i) == LET run == Run(args, BaseOf(fs[i], args), LenOf(fs[i], args)) IN
  <<i, Shown(fs[i], run) \o Defaults(fs[i], run)>>
Used(fs, args, j) == \E i \in 1..Len(fs) : BaseOf(fs[i], args) < j /\ j <= BaseOf(fs[i], args) + LenOf(fs[i], args)
Unused(fs, args) == SelectSeq([j \in 1..Len(args) |-> j], LAMBDA j : ~Used(fs, args, j))
Results(fs) == LET keep == SelectSeq([i \in 1..Len(fs) |-> i], LAMBDA i : fs[i][1] # 0) IN
  [k \in 1..Len(keep) |-> <<"T", keep[k], IF fs[keep[k]][1] = 2 THEN "l" ELSE "v">>]
Passed(fs, args) == LET u == Unused(fs, args) IN
  [k \in 1..Len(u) |-> <<args[u[k]][1], args[u[k]][2], IF args[u[k]][3] = "r" THEN "v" ELSE args[u[k]][3]>>]
(* no rvalue is given to two functions, unless neither takes it over *)
Act(op, a) ==
  CASE op = "new"  -> Say(op, a, <<>>, <<>>)
    (* a = <<functions, arguments, category of the tuple of functions>>.
       calls in order; the result; lvalue arguments afterwards; whether references refer to the caller's objects *)
    [] op = "need" -> /\ (\A i \in 1..Len(a[1]) : Callable(a[1][i], a[2])) = TRUE
                      /\ Say(op, a, [calls |-> [i \in 1..Len(a[1]) |-> CallOf(a[1], a[2], i)],
                                     result |-> Results(a[1]) \o Passed(a[1], a[2]), same |-> 1],
                             [j \in 1..Len(a[2]) |-> IF a[2][j][3] = "r" THEN 0 ELSE a[2][j][2]])
    [] OTHER -> FALSE
TypeOK == ev.op = "need" =>                              \* every argument is used or passed on, each function called once
  /\ Len(ev.r.calls) = Len(ev.a[1])
  /\ \A j \in 1..Len(ev.a[2]) : Used(ev.a[1], ev.a[2], j) \/ \E k \in 1..Len(ev.r.result) : ev.r.result[k][2] = ev.a[2][j][2]
===========================================================================
