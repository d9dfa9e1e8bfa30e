------------------------------ MODULE TypeLevel ------------------------------
(* What the library computes about types and constants.
   A name stands for a type ("t7", an incomplete class of that number) or a constant ("i7", an int; "u7" an unsigned;
   "z7" a size_t; "l7" a long long; "b1" a bool; "c65" a char; "e2" an enumerator): names are different exactly when
   the types or constants are. A type expression is <<base, modifiers>>, the modifiers ("c" const, "v" volatile, "*",
   "&", "&&") applied from left to right. *)
EXTENDS VF
VARIABLE ev
vars == ev
Init == ev = [op |-> "", a |-> <<>>, r |-> <<>>, o |-> <<>>]
Say(op, a, r) == ev' = [op |-> op, a |-> a, r |-> r, o |-> <<>>]
(* ---- maps: sequences of pairs *)
Unique(m, j) == Cardinality({m[p][j] : p \in 1..Len(m)}) = Len(m)
Look(m, j, k, d) == IF \E p \in 1..Len(m) : m[p][j] = k
                    THEN m[CHOOSE p \in 1..Len(m) : m[p][j] = k][3 - j] ELSE d
(* kinds: what keys and entries are (t types, v constants); an omitted default is void, or the int 0 *)
Default(what, d) == IF d # "" THEN d ELSE IF what = "t" THEN "void" ELSE "i0"
KeyKind == [tt |-> "t", tv |-> "t", vt |-> "v", vv |-> "v"]
EntryKind == [tt |-> "t", tv |-> "v", vt |-> "t", vv |-> "v"]
(* ---- type expressions *)
IsRef(t) == t[2] # <<>> /\ Last(t[2]) \in {"&", "&&"}
IsPtr(t) == t[2] # <<>> /\ Last(t[2]) = "*"
Unref(t) == IF IsRef(t) THEN <<t[1], Front(t[2])>> ELSE t
RECURSIVE Uncv(_)
Uncv(t) == IF t[2] # <<>> /\ Last(t[2]) \in {"c", "v"} THEN Uncv(<<t[1], Front(t[2])>>) ELSE t
Decay(t) == Uncv(Unref(t))
Each(f(_), s) == [i \in 1..Len(s) |-> f(s[i])]
(* ---- callables: how <<form, cv, ref>> declares what is called on *)
ObjOf(form, cv, ref) == CASE form = "fn" -> <<"void", <<>>>>
                          [] form = "lambda" -> <<"F", <<"c">>>>
                          [] form = "mutable" -> <<"F", <<>>>>
                          [] OTHER -> <<IF form = "member" THEN "C" ELSE "F", cv \o ref>>
(* ---- kinds of types, by a name for each *)
Functions == {"f0", "f1", "fn_ne", "f_const", "f_var"}
Functors == {"lam", "mlam", "glam", "tlam", "functor", "overloaded", "derived", "templated", "deleted_copy", "both_bases"}
Scalars == {"int", "bool", "double", "en", "un", "ptr", "fptr", "mptr", "mfptr"}
Plain == {"empty", "agg", "nested", "made", "made3"}
Closed == {"string", "priv", "mut", "vec", "privmade"}
Ranges == {"arr", "vec", "string", "array", "array0", "cxvec", "own_range"}
Tuples == {"tuple", "tuple0", "ituple"}
Protocol == Tuples \cup {"pair", "array", "array0", "mi"}
Incomplete == {"inc"}
Kinds == Functions \cup Functors \cup Scalars \cup Plain \cup Closed \cup Ranges \cup Protocol \cup Incomplete
(* <<kind, modifiers>>: is it a function, a function object, callable, complete *)
Callable(k, m) == <<B(k \in Functions /\ m = <<>>), B(k \in Functors /\ ~IsRef(<<k, m>>)),
                    B((k \in Functions /\ m = <<>>) \/ (k \in Functors /\ ~IsRef(<<k, m>>)))>>
Act(op, a) ==
  CASE op = "new" -> Say(op, a, <<>>)
    [] op = "lookup" -> (* <<kind, map, key, default>> *)
         Unique(a[2], 1) /\ Say(op, a, Look(a[2], 1, a[3], Default(EntryKind[a[1]], a[4])))
    [] op = "rlookup" -> (* <<kind, map, entry, default>> *)
         Unique(a[2], 2) /\ Say(op, a, Look(a[2], 2, a[3], Default(KeyKind[a[1]], a[4])))
    [] op \in {"ntht", "nthv"} -> a[2] \in 0..(Len(a[1]) - 1) /\ Say(op, a, a[1][a[2] + 1])
    [] op \in {"each", "apply"} -> (* <<form, names>>: what is visited, in order *) Say(op, a, a[2])
    [] op = "gets" -> (* <<names>> of an integer sequence with the tuple protocol: size, elements, element types, bindings *)
         Say(op, a, <<Len(a[1]), a[1], a[1], a[1]>>)
    [] op = "sig" -> (* <<form, cv, ref, how, result, parameters>> *)
         Say(op, a, [ret |-> a[5], args |-> a[6], dec |-> Each(Decay, a[6]), arity |-> Len(a[6]), nth |-> a[6],
                     dnth |-> Each(Decay, a[6]), obj |-> ObjOf(a[1], a[2], a[3])])
    [] op = "garity" -> (* <<form, number of parameters>> *) Say(op, a, a[2])
    [] op = "cond" -> Say(op, a, IF a[1] = 1 THEN a[2] ELSE a[3])
    [] op = "typeor" -> (* <<type, default>>, the predicate being "is a pointer" *)
         Say(op, a, IF IsPtr(Uncv(a[1])) THEN a[1] ELSE IF a[2] = <<>> THEN <<"void", <<>>>> ELSE a[2])
    [] op = "sameunq" -> Say(op, a, B(Decay(a[1]) = Decay(a[2])))
    [] op = "anyof" -> LET f == \E i \in 1..Len(a[2]) : a[2][i] = a[1] IN Say(op, a, <<B(f), B(~f)>>)
    [] op = "special" -> (* <<template, arguments, template asked for>> *) Say(op, a, B(a[1] = a[3]))
    [] op = "shrink" -> (* the language drops const and volatile from results that are no class *)
         (Uncv(a[1]) = a[1] \/ (a[1][1] # "int" /\ \A i \in 1..Len(a[1][2]) : a[1][2][i] # "*"))
         /\ Say(op, a, <<a[1], a[1]>>)
    [] op = "callable" -> (* <<kind, modifiers>>: is_function, is_function_object, is_callable *)
         a[1] \in Kinds \ Incomplete /\ Say(op, a, Callable(a[1], a[2]))
    [] op = "structural" -> a[1] \in Scalars \cup Plain \cup Closed
         /\ Say(op, a, B(a[1] \notin Closed \/ (a[2] # <<>> /\ Last(a[2]) \in {"&", "*"})))
    [] op = "complete" -> a[1] \in Kinds \ Functions
         /\ Say(op, a, B(a[1] \notin Incomplete \/ (a[2] # <<>> /\ \E i \in 1..Len(a[2]) : a[2][i] = "*")))
    [] op = "protocols" -> (* stdx tuple, tuple protocol, array protocol *)
         a[1] \in Protocol \cup Scalars \cup Plain \cup Functors
         /\ \E x \in IF a[1] = "mi" THEN {0, 1} ELSE {B(a[1] \in {"array", "array0"})} :
              Say(op, a, <<B(a[1] \in Tuples), B(a[1] \in Protocol), x>>)
    [] op = "range" -> a[1] \in Kinds \ (Incomplete \cup Functions) /\ Say(op, a, B(a[1] \in Ranges))
    [] op = "under" -> (* <<underlying type, number>> of an enumeration (or of a number itself): type and number *)
         Say(op, a, <<a[2], a[3], a[2]>>)
    [] OTHER -> FALSE
TypeOK == TRUE
===========================================================================
