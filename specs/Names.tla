-------------------------------- MODULE Names --------------------------------
(* Names of types and enumerators, as the compiler (g++ or clang++) spells them. A type is
     <<"n", name>> a named type          <<"t", template, arguments>> a specialization (an argument is a type or <<"v", text>>)
     <<"c", t>> const t                  <<"*", t>>  <<"&", t>>  <<"&&", t>>   <<"a", t, n>> array   <<"f", ret, params>> function
     <<"m", t, name>> a member type of t <<"l", arguments, name>> a local type of the function template mk::make<arguments> *)
EXTENDS VF
CONSTANT Compiler
ASSUME Compiler \in {"g++", "clang++"}
VARIABLE ev
vars == ev
Init == ev = [op |-> "", a |-> <<>>, r |-> <<>>, o |-> <<>>]
Say(op, a, r) == ev' = [op |-> op, a |-> a, r |-> r, o |-> <<>>]
Commas(ss) == IF ss = <<>> THEN "" ELSE FoldLeft(LAMBDA x, y : IF x = "" THEN y ELSE x \o ", " \o y, "", ss)
Gnu == Compiler = "g++"
RECURSIVE Spell(_)
Args(as) == "<" \o Commas([i \in 1..Len(as) |-> Spell(as[i])]) \o ">"
Spell(t) ==
  CASE t[1] \in {"n", "v"} -> t[2]
    [] t[1] = "t" -> t[2] \o Args(t[3])
    [] t[1] = "c" -> IF t[2][1] = "*" THEN Spell(t[2]) \o (IF Gnu THEN " const" ELSE "const") ELSE "const " \o Spell(t[2])
    (* clang++ keeps the declarator away from the type, but not from another declarator *)
    [] t[1] \in {"*", "&", "&&"} -> Spell(t[2]) \o (IF Gnu \/ t[2][1] = "*" THEN "" ELSE " ") \o t[1]
    [] t[1] = "a" -> Spell(t[2]) \o (IF Gnu THEN " [" ELSE "[") \o ToString(t[3]) \o "]"
    [] t[1] = "f" -> Spell(t[2]) \o (IF Gnu THEN "(" ELSE " (") \o Commas([i \in 1..Len(t[3]) |-> Spell(t[3][i])]) \o ")"
    [] t[1] = "m" -> Spell(t[2]) \o "::" \o t[3]
    [] t[1] = "l" -> IF Gnu THEN "mk::make" \o Args(t[2]) \o "()::" \o t[3] ELSE t[3]
    [] OTHER -> ""
(* the name without template arguments: all before the first of them *)
RECURSIVE Base(_)
Base(t) ==
  CASE t[1] \in {"n", "v"} -> <<t[2], FALSE>>
    [] t[1] = "t" -> <<t[2], TRUE>>
    [] t[1] = "c" /\ t[2][1] # "*" -> LET b == Base(t[2]) IN <<"const " \o b[1], b[2]>>
    [] t[1] = "l" -> IF Gnu THEN <<"mk::make", TRUE>> ELSE <<t[3], FALSE>>
    [] t[1] \in {"c", "*", "&", "&&", "a", "m", "f"} -> LET b == Base(t[2]) IN IF b[2] THEN b ELSE <<Spell(t), FALSE>>
    [] OTHER -> <<"", FALSE>>
(* a function type whose arguments have arguments is left out *)
RECURSIVE Plain(_)
Plain(t) == IF t[1] = "f" THEN FALSE ELSE IF t[1] \in {"c", "*", "&", "&&", "a", "m"} THEN Plain(t[2]) ELSE TRUE
TypeOK == TRUE
Act(op, a) ==
  CASE op = "new" -> Say(op, a, <<>>)
    [] op = "type" -> Say(op, a, Spell(a[1]))
    [] op = "base" -> Plain(a[1]) /\ Say(op, a, Base(a[1])[1])
    (* of one template, for two specializations *)
    [] op = "same" -> /\ a[1][1] = "t" /\ a[2][1] = "t"
                      /\ Say(op, a, IF a[1][2] = a[2][2] THEN 1 ELSE 0)
    (* an enumerator's own name; a value without one is written as a cast *)
    [] op = "enum" -> Say(op, a, IF a[2] # "" THEN a[2] ELSE "(" \o Spell(a[1]) \o ")" \o ToString(a[3]))
    (* formatted in place *)
    [] op = "fmt" -> Say(op, a, "<" \o Spell(a[1]) \o ">")
    [] op = "fmtenum" -> Say(op, a, "<" \o (IF a[2] # "" THEN a[2] ELSE "(" \o Spell(a[1]) \o ")" \o ToString(a[3])) \o ">")
    [] OTHER -> FALSE
===========================================================================
