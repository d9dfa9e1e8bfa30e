------------------------------ MODULE Concepts ------------------------------
(* Which types and callables model the basic concepts; the library uses those of <concepts> or, where there are none,
   its own, and both have to answer alike. A type is known by a name. *)
EXTENDS VF
VARIABLE ev
vars == ev
Init == ev = [op |-> "", a |-> <<>>, r |-> <<>>, o |-> <<>>]
Say(op, a, r) == ev' = [op |-> op, a |-> a, r |-> r, o |-> <<>>]
SignedInts == {"int", "schar", "long", "llong"}
UnsignedInts == {"unsigned", "uchar", "ulong", "bool"}
Floats == {"float", "double"}
Numbers == SignedInts \cup UnsignedInts \cup Floats
Enums == {"en", "es"}                      \* unscoped, scoped
Incomplete == {"nolt", "nogt", "nole", "noge"}   \* == and all orders but one
Classes == Incomplete \cup {"agg", "eqo", "ord", "less", "neq", "onlyeq", "rel", "base", "derived", "hidden", "twice", "toint", "saysint", "fromint", "saysfrom"}
Kinds == Numbers \cup Enums \cup Classes \cup {"ptr", "cptr", "null"}
(* "hidden" derives from "base" privately, "twice" in two ways; "toint" turns into an int, "saysint" when told to;
   "fromint" can be made of an int, "saysfrom" when told to; "less" has only <, "eqo" ==,
   "neq" only !=, "onlyeq" == and a deleted !=, "rel" all orders and no == *)
(* qualifiers: "", "c" const, "&", "c&" *)
One(k, q) == <<B(k \in Floats /\ q \in {"", "c"}), B(k \in SignedInts \cup UnsignedInts /\ q \in {"", "c"}),
               B(k \in SignedInts /\ q \in {"", "c"}), B(k \in UnsignedInts /\ q \in {"", "c"}),
               B(k \notin {"agg", "less", "neq", "onlyeq", "rel", "base", "derived", "hidden", "twice", "saysint", "fromint", "saysfrom"}),
               B(k \in Numbers \cup Enums \cup {"ord", "ptr", "cptr", "toint"})>>
Bases(k) == CASE k = "derived" -> {"base", "derived"} [] k \in Classes -> {k} [] OTHER -> {}
Converts(x, y) == \/ x = y
                  \/ x \in Numbers \cup {"en", "toint"} /\ y \in Numbers
                  \/ x \in Numbers \cup {"en"} /\ y = "fromint"
                  \/ x = "derived" /\ y = "base"
                  \/ x = "ptr" /\ y \in {"cptr", "bool"}
                  \/ x = "cptr" /\ y = "bool"
                  \/ x = "null" /\ y \in {"ptr", "cptr"}
(* same_as, derived_from, convertible_to *)
Two(x, y) == <<B(x = y), B(y \in Bases(x)), B(Converts(x, y))>>
(* callables, by the parameters they take and what they give *)
Gives == {"none", "bool", "int", "ptr", "tester", "saysbool", "agg"}   \* "tester" turns into a bool, "saysbool" when told to
Passes(args, params) == Len(args) = Len(params) /\ \A i \in 1..Len(args) : Converts(args[i], params[i])
Calls(params, gives, args) == <<B(Passes(args, params)), B(Passes(args, params) /\ gives \in {"bool", "int", "ptr", "tester"})>>
Act(op, a) == CASE op = "new" -> Say(op, a, <<>>)
                [] op = "one" -> Say(op, a, One(a[1], a[2]))
                [] op = "two" -> Say(op, a, Two(a[1], a[2]))
                [] op = "call" -> (* <<how, parameters, result, arguments>> *) Say(op, a, Calls(a[2], a[3], a[4]))
                [] OTHER -> FALSE
TypeOK == \A i \in 1..Len(ev.r) : ev.r[i] \in {0, 1}
===========================================================================
