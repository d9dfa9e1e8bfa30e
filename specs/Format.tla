-------------------------------- MODULE Format --------------------------------
(* Compile-time formatting and compile-time strings.  A string is a sequence of characters (one-character strings;
   "NUL" is the null character).  An argument is <<kind, ...>>:
     rt t v      run-time value v of type t (int, string, move-only, pair of ints (a tuple))
     int v t     integer of C++ type t        bool b       chr c      str chars form
     big chars t an integer given by its decimal digits
     type k      the type TypeNames[k]        enum k       the enumerator EnumNames[k]
     nest c f as the result of formatting f with arguments as, given as constant (c = 1) or at run time (c = 0). *)
EXTENDS VF
VARIABLE ev
vars == ev
Init == ev = [op |-> "", a |-> <<>>, r |-> <<>>, o |-> <<>>]
Say(op, a, r) == ev' = [op |-> op, a |-> a, r |-> r, o |-> <<>>]
TypeNames == <<<<"i", "n", "t">>, <<"d", "o", "u", "b", "l", "e">>, <<"f", "m", ":", ":", "r", "e", "c">>>>
EnumNames == <<<<"r", "e", "d">>, <<"b", "l", "u", "e">>, <<"u", "n", "s">>>>
Digit == <<"0", "1", "2", "3", "4", "5", "6", "7", "8", "9", "a", "b", "c", "d", "e", "f">>
RECURSIVE Digits(_, _)
Digits(n, b) == (IF n < b THEN <<>> ELSE Digits(n \div b, b)) \o <<Digit[(n % b) + 1]>>
Number(n, b) == IF n < 0 THEN <<"-">> \o Digits(-n, b) ELSE Digits(n, b)

(* ---- the parts of a format string: segments <<text, field>> and the text after the last field *)
Step(s, c) ==
  CASE s.mode = 0 /\ c = "{"  -> [s EXCEPT !.mode = 1]
    [] s.mode = 0 /\ c = "}"  -> [s EXCEPT !.mode = 3]
    [] s.mode = 0             -> [s EXCEPT !.text = Append(s.text, c)]
    [] s.mode = 3 /\ c = "}"  -> [s EXCEPT !.mode = 0, !.text = s.text \o <<"}", "}">>]
    [] s.mode = 3 \/ s.mode = 9 \/ (s.mode = 2 /\ c = "{") -> [s EXCEPT !.mode = 9]      \* not a format string
    [] s.mode = 1 /\ c = "{"  -> [s EXCEPT !.mode = 0, !.text = s.text \o <<"{", "{">>]
    [] s.mode \in {1, 2} /\ c = "}" -> [mode |-> 0, text |-> <<>>, field |-> <<>>, out |-> Append(s.out, <<s.text, s.field>>)]
    [] OTHER                  -> [s EXCEPT !.mode = 2, !.field = Append(s.field, c)]
Parse(f) == FoldLeft(Step, [mode |-> 0, text |-> <<>>, field |-> <<>>, out |-> <<>>], f)
WellFormed(f) == Parse(f).mode = 0
Upto(f, c) == IF \E i \in 1..Len(f) : f[i] = c THEN Min({i \in 1..Len(f) : f[i] = c}) - 1 ELSE Len(f)
NameOf(field) == SubSeq(field, 1, Upto(field, ":"))
SpecOf(field) == SubSeq(field, Upto(field, ":") + 1, Len(field))
Hex(field) == SpecOf(field) = <<":", "x">>
Plain(field) == SpecOf(field) = <<>>
Escaped(text) == \E i \in 1..Len(text) : text[i] \in {"{", "}"}

Render(x, hex) ==
  CASE x[1] = "int"  -> Number(x[2], IF hex THEN 16 ELSE 10)
    [] x[1] = "bool" -> IF hex THEN <<Digit[x[2] + 1]>> ELSE IF x[2] = 1 THEN <<"t", "r", "u", "e">> ELSE <<"f", "a", "l", "s", "e">>
    [] x[1] = "chr"  -> <<x[2]>>
    [] x[1] \in {"str", "big"} -> x[2]
    [] x[1] = "type" -> TypeNames[x[2]]
    [] x[1] = "enum" -> EnumNames[x[2]]
LegalArg(x, seg) == CASE x[1] = "rt" -> TRUE
                      [] x[1] = "nest" -> seg[2] = <<>> /\ ~Escaped(seg[1])
                      [] x[1] \in {"int", "bool"} -> (Plain(seg[2]) \/ Hex(seg[2])) /\ ~Escaped(seg[1])
                      [] OTHER -> Plain(seg[2]) /\ ~Escaped(seg[1])
(* the places of named arguments: run-time ones by position among the arguments, others by extent of the text *)
Shift(ns, text, args) == [k \in 1..Len(ns) |-> IF ns[k][2] = "r" THEN <<ns[k][1], "r", ns[k][3] + args, 0>>
                                               ELSE <<ns[k][1], "c", ns[k][3] + text, ns[k][4] + text>>]
Join(p, q) == [text |-> p.text \o q.text, args |-> p.args \o q.args, named |-> p.named \o Shift(q.named, Len(p.text), Len(p.args))]
Text(t) == [text |-> t, args |-> <<>>, named |-> <<>>]
RECURSIVE Legal(_, _), Formatted(_, _)
Legal(f, as) == LET p == Parse(f) IN
  /\ WellFormed(f) /\ Len(p.out) = Len(as)
  /\ \A i \in 1..Len(as) : LegalArg(as[i], p.out[i]) /\ (as[i][1] = "nest" => Legal(as[i][3], as[i][4]))
Piece(x, field) ==
  CASE x[1] = "nest" -> Formatted(x[3], x[4])
    [] x[1] = "rt" -> [text |-> <<"{">> \o SpecOf(field) \o <<"}">>, args |-> <<Tail(x)>>,
                       named |-> IF NameOf(field) = <<>> THEN <<>> ELSE <<<<NameOf(field), "r", 0, 0>>>>]
    [] OTHER -> LET t == Render(x, Hex(field)) IN
                [text |-> t, args |-> <<>>,
                 named |-> IF NameOf(field) = <<>> THEN <<>> ELSE <<<<NameOf(field), "c", 0, Len(t)>>>>]
Formatted(f, as) == LET p == Parse(f) IN
  Join(FoldLeft(Join, Text(<<>>), [i \in 1..Len(as) |-> Join(Text(p.out[i][1]), Piece(as[i], p.out[i][2]))]), Text(p.text))

Act(op, a) ==
  CASE op = "new"   -> Say(op, a, <<>>)
    (* a = <<how (1 function, 2 macro, 3 other output type), format string, arguments>> *)
    [] op = "format" -> Legal(a[2], a[3]) /\ Say(op, a, Formatted(a[2], a[3]))
    [] op = "count" -> WellFormed(a[1]) /\ Say(op, a, Len(Parse(a[1]).out))
    [] op = "cat"   -> Say(op, a, FlattenSeq(a[1]))                    \* a[2]: which kinds of strings
    [] op = "split" -> LET k == Upto(a[1], a[2]) IN
                       Say(op, a, IF k = Len(a[1]) THEN <<a[1], <<>>>> ELSE <<SubSeq(a[1], 1, k), SubSeq(a[1], k + 2, Len(a[1]))>>)
    [] op = "same"  -> Say(op, a, B(a[1] = a[2]))
    [] op = "show"  -> Say(op, a, [size |-> Len(a[1]), cap |-> Len(a[1]) + 1, empty |-> B(a[1] = <<>>), fwd |-> a[1], back |-> Reverse(a[1]), turned |-> Reverse(a[1]),
                                   view |-> a[1], type |-> a[1], again |-> a[1], ended |-> 1])
    [] OTHER -> FALSE
(* text outside the fields is kept, and every run-time argument has its field *)
TypeOK == ev.op = "format" => Len(Parse(ev.r.text).out) = Len(ev.r.args) \/ \E x \in Range(ev.a[3]) : x[1] \in {"str", "chr", "nest"}
===========================================================================
