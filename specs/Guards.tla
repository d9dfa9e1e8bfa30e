-------------------------------- MODULE Guards --------------------------------
(* Which uses of the library are accepted when they are compiled and which are refused.
   Every operation is a use with its parameters; r = 1 if it is accepted, 0 if not.
   Numbers are sizes: -k stands for 2^64 - k, and so -1 for the extent or count that is not fixed.
   Scalar types are named by Widths; "es8" and "esi" are scoped enumerations over an unsigned 8 bit type and int,
   "agg" is a class without operators, "eqo" one with == only, "str" a string, "mov" one that cannot be copied. *)
EXTENDS VF
VARIABLE ev
vars == ev
Init == ev = [op |-> "", a |-> <<>>, r |-> 0, o |-> <<>>]
Say(op, a, r) == ev' = [op |-> op, a |-> a, r |-> B(r), o |-> <<>>]
(* ---- sizes *)
Dyn == -1
Le(x, y) == IF (x < 0) = (y < 0) THEN x <= y ELSE y < 0
SumLe(x, y, z) == CASE x >= 0 /\ y >= 0 -> Le(x + y, z)
                    [] x < 0 /\ y >= 0 -> z < 0 /\ y <= z - x
                    [] x >= 0 /\ y < 0 -> z < 0 /\ x <= z - y
                    [] OTHER -> FALSE
(* ---- types *)
Signed == {"schar", "short", "int", "long"}
Unsigned == {"uchar", "ushort", "uint", "ulong"}
Integers == Signed \cup Unsigned
Floats == {"float", "double"}
Enums == {"es8", "esi"}
Digits == [uchar |-> 8, ushort |-> 16, uint |-> 32, ulong |-> 64]
Number(t) == t \in Integers \cup Floats
Equal(s, t) == \/ Number(s) /\ Number(t)
               \/ s = t /\ t \in Enums \cup {"ptr", "eqo", "str", "bool"}
Ordered(s, t) == Equal(s, t) /\ "eqo" \notin {s, t}
Uniform(ts) == Cardinality({ts[i] : i \in 1..Len(ts)}) = Len(ts)
Count(ts, t) == Cardinality({i \in 1..Len(ts) : ts[i] = t})
In(ts, t) == Count(ts, t) > 0
(* ---- a tuple's elements are named by their types *)
Compares(how, ls, rs) == Len(ls) = Len(rs) /\ \A i \in 1..Len(ls) : IF how = "eq" THEN Equal(ls[i], rs[i]) ELSE Ordered(ls[i], rs[i])
(* ---- a span <<extent, element const>> made from a source <<kind, number of elements, const>> *)
Fixed == {"array", "carray", "span"}
SpanFits(ext, src) == ext = Dyn \/ src[1] \notin Fixed \/ Le(ext, src[2])
SpanImplicit(ext, src) == src[1] \in Fixed \/ (src[1] = "dynspan" /\ ext = Dyn)
(* ---- what the operators of an atomic value need of its type *)
AtomicOp(op, t) == CASE op \in {"load", "store", "exchange", "assign", "read"} -> TRUE
                     [] op \in {"fetch_add", "fetch_sub", "+=", "-="} -> Number(t) \/ t = "bool"
                     [] op \in {"++x", "x++", "--x", "x--"} -> Number(t)
                     [] op \in {"fetch_and", "fetch_or", "fetch_xor", "&=", "|=", "^="} -> t \in Integers \cup {"bool"}
                     [] op \in {"copy", "copy assign", "move"} -> FALSE
(* ---- optional values: own = "no", or how the reserved value is given: "traits" (a specialization) or "param" *)
RECURSIVE Reserves(_)
Reserves(t) == IF t[1] = "pair" THEN Reserves(t[2]) /\ Reserves(t[3]) ELSE t[1] \in Floats \cup {"ptr"}
Optional(t, own) == CASE own = "param" -> t[1] \notin {"pair", "agg"}  \* the reserved value is compared with
                      [] own = "traits" -> t[1] \notin Integers \cup {"bool", "pair", "agg"}
                      [] OTHER -> Reserves(t)
(* ---- what a value is made from without saying so *)
Implicit == {"atomic to value", "atomic_bitset to bitset"}
(* ---- literals: their characters *)
DigitsOf == [dec |-> {"0", "1", "2", "3", "4", "5", "6", "7", "8", "9"}, oct |-> {"0", "1", "2", "3", "4", "5", "6", "7"},
             bin |-> {"0", "1"}, hex |-> {"0", "1", "2", "3", "4", "5", "6", "7", "8", "9", "a", "b", "c", "d", "e", "f",
                                          "A", "B", "C", "D", "E", "F"}]
(* ---- nodes: what their members next and prev are: "" none, "self" a pointer to the node, "other" another pointer *)
Linkable(list, n) == n[1] = "self" /\ (list = "double" => n[2] = "self")
(* ---- calls *)
ArrayLike == {"array", "span"}
SelfContained(t) == t \in Integers \cup Floats \cup Enums \cup {"bool", "ptr", "agg", "eqo"}  \* copied byte by byte
Act(op, a) ==
  CASE op = "new"      -> ev' = [op |-> op, a |-> a, r |-> <<>>, o |-> <<>>]
    (* spans *)
    [] op \in {"first", "last"} -> (* <<extent, count>> *) Say(op, a, Le(a[2], a[1]))
    [] op = "sub"      -> (* <<extent, offset, count>> *)
         Say(op, a, IF a[3] = Dyn THEN Le(a[2], a[1]) ELSE SumLe(a[2], a[3], a[1]))
    [] op = "sget"     -> (* <<extent, index>> *) Say(op, a, Le(a[2] + 1, a[1]))
    [] op = "selem"    -> (* <<extent, index>> *) Say(op, a, a[1] # Dyn /\ a[2] < a[1])
    [] op = "span"     -> (* <<extent, const, source, implicit>> *)
         Say(op, a, SpanFits(a[1], a[3]) /\ (a[3][3] <= a[2]) /\ (a[4] = 0 \/ SpanImplicit(a[1], a[3])))
    [] op = "wbytes"   -> (* <<extent, const>> *) Say(op, a, a[2] = 0)
    [] op = "capacity" -> (* <<kind, const, how it is asked>> *) Say(op, a, a[1] \notin {"vector", "dynspan", "string", "int"})
    (* tuples *)
    [] op \in {"tget", "tindex"} -> (* <<types, index, tuple given as>> *) Say(op, a, a[2] < Len(a[1]))
    [] op \in {"tkey", "tmember"} -> (* <<types, type, tuple given as>>, no type twice *) Uniform(a[1]) /\ Say(op, a, In(a[1], a[2]))
    [] op = "tname"    -> (* <<names an indexed tuple knows, name, tuple given as>> *) Uniform(a[1]) /\ Say(op, a, In(a[1], a[2]))
    [] op = "tcompare" -> (* <<eq or lt or spaceship, types, types>> *) Say(op, a, Compares(a[1], a[2], a[3]))
    [] op = "tother"   -> (* <<eq or lt, types, which side, what is not a tuple>> *) Say(op, a, FALSE)
    [] op = "tapply"   -> (* <<elements, parameters>> *) Say(op, a, a[1] = a[2])
    [] op = "tjoin"    -> (* <<elements, initial value given>> *) Say(op, a, a[1] > 0 \/ a[2] = 1)
    [] op = "tbind"    -> (* <<elements, names>> *) a[2] > 0 /\ Say(op, a, a[1] = a[2])
    [] op = "tcopy"    -> (* <<types>> *) Say(op, a, ~In(a[1], "mov"))
    [] op = "tlist"    -> (* <<algorithm, unrolled, kinds of the arguments>> *)
         Len(a[3]) > 0 /\ Say(op, a, a[2] = 1 \/ \E i \in 1..Len(a[3]) : a[3][i] \notin ArrayLike)
    (* bits *)
    [] op = "bstore"   -> (* <<type>> *) Say(op, a, a[1] \in Unsigned)
    [] op = "bto"      -> (* <<size, type>> *)
         LET t == IF a[2] = "es8" THEN "uchar" ELSE IF a[2] = "esi" THEN "int" ELSE a[2] IN
           a[1] > 0 /\ Say(op, a, t \in Unsigned /\ a[1] <= Digits[t])
    [] op = "bnatural" -> (* <<size>> *) Say(op, a, a[1] <= 64)
    [] op = "bplace"   -> (* <<types>> *) Say(op, a, \A i \in 1..Len(a[1]) : a[1][i] \in Integers \cup Enums \cup {"bool"})
    [] op = "benum"    -> (* <<operation, enumeration of the set, what is given>> *) Say(op, a, a[2] = a[3])
    [] op = "btext"    -> (* <<size, length of the compile-time string>> *) Say(op, a, a[1] = a[2])
    [] op = "btypes"   -> (* <<operation, types of the set, types named>> *)
         Uniform(a[2]) /\ Say(op, a, \A i \in 1..Len(a[3]) : In(a[2], a[3][i]))
    [] op = "order"    -> (* <<byte order function, type>> *) Say(op, a, a[2] \in Unsigned)
    [] op = "count"    -> (* <<bit function, type>> *) Say(op, a, a[2] \in Unsigned)
    [] op = "unpack"   -> (* <<to, from>> *) Say(op, a, a[1] \in Unsigned /\ a[2] \in Unsigned /\ Digits[a[1]] <= Digits[a[2]])
    [] op = "mask"     -> (* <<type, most significant, least significant>>; "wide" is an array of three 8 bit types *)
         LET n == IF a[1] = "wide" THEN 24 ELSE IF a[1] \in Unsigned THEN Digits[a[1]] ELSE 0 IN
           Say(op, a, a[3] <= a[2] /\ a[2] < n)
    [] op = "pack"     -> (* <<to, number of parts, type of the parts>> *)
         a[3] \in Unsigned /\ a[1] # "uchar" /\ Say(op, a, a[1] \in Unsigned /\ a[2] > 1 /\ a[2] * Digits[a[3]] = Digits[a[1]])
    [] op = "abits"    -> (* <<size, type>>: in one value of the type *) a[1] > 0 /\ Say(op, a, a[2] \in Unsigned /\ a[1] <= Digits[a[2]])
    [] op = "abto"     -> (* <<size, type>> *)
         LET t == IF a[2] = "es8" THEN "uchar" ELSE IF a[2] = "esi" THEN "int" ELSE a[2] IN
           a[1] \in 1..64 /\ Say(op, a, t \in Unsigned /\ a[1] <= Digits[t])
    [] op = "abtext"   -> (* <<size, length of the compile-time string>> *) Say(op, a, a[1] = a[2])
    (* numbers *)
    [] op \in {"as_signed", "as_unsigned"} -> (* <<type>> *) Say(op, a, a[1] \in Integers)
    [] op = "aligned"  -> (* <<type>> *) Say(op, a, a[1] \in Integers \cup {"bool", "ptr"})
    [] op = "roll"     -> (* <<type>> *) Say(op, a, a[1] \in Unsigned)
    [] op = "rollop"   -> (* <<operator, type, type, plain>>: rollover values of the types, or the second a plain number *)
         Say(op, a, a[2] = a[3] /\ a[4] = 0 /\ a[1] \notin {"<", "<=", ">", ">="})
    [] op = "atomic"   -> (* <<operator, type>> *) Say(op, a, AtomicOp(a[1], a[2]))
    [] op = "atype"    -> (* <<type>> *) Say(op, a, SelfContained(a[1]))
    [] op = "convert"  -> (* <<conversion, said, size in bits>>: whatever the size *) Say(op, a, a[2] = 1 \/ a[1] \in Implicit)
    (* containers *)
    [] op = "fill"     -> (* <<container, capacity, elements>> *) Say(op, a, a[3] <= a[2])
    [] op = "grow"     -> (* <<container, capacity, elements>>: added one by one in a constant expression *) Say(op, a, a[3] <= a[2])
    [] op = "drain"    -> (* <<container, put in, taken out>>: in a constant expression *) Say(op, a, a[3] <= a[2])
    [] op = "lookup"   -> (* <<container, keys, key>>: in a constant expression *) Say(op, a, In(a[2], a[3]))
    [] op = "relink"   -> (* <<list, how often a node that another follows is linked>>: in a constant expression *) a[2] > 0 /\ Say(op, a, a[2] = 1)
    [] op = "node"     -> (* <<list, <<next, prev>>, policy>> *) Say(op, a, Linkable(a[1], a[2]))
    [] op = "optional" -> (* <<type, own>> *) Say(op, a, Optional(a[1], a[2]))
    [] op = "env"      -> (* <<bound, asked>> *) Say(op, a, In(a[1], a[2]))
    [] op = "bytes"    -> (* <<read, peek or write, type>> *) Say(op, a, SelfContained(a[2]))
    (* text *)
    [] op = "format"   -> (* <<replacement fields, arguments>> *) Say(op, a, a[1] = a[2])
    [] op = "ctresult" -> (* <<compile-time arguments, run-time arguments>>: the result of a format used as a string *)
         Say(op, a, a[2] = 0)
    [] op = "literal"  -> (* <<base, characters>> *)
         Len(a[2]) > 0 /\ Say(op, a, \A i \in 1..Len(a[2]) : a[2][i] \in DigitsOf[a[1]])
    [] op = "assert"   -> (* <<condition, pieces of text, what stands between them>>: a refusal shows the text *)
         /\ Len(a[2]) = Len(a[3]) + 1
         /\ ev' = [op |-> op, a |-> a, r |-> a[1], o |-> IF a[1] = 1 THEN <<>> ELSE
              <<FoldLeft(LAMBDA s, i : s \o a[3][i] \o a[2][i + 1], a[2][1], [i \in 1..Len(a[3]) |-> i])>>]
    [] op = "expand"   -> (* <<empty, has a default>>: a value again from its shrunk form *) Say(op, a, a[1] = 1 /\ a[2] = 1)
    [] op = "elem"     -> (* <<kind, elements, index>> *) a[2] > 0 /\ Say(op, a, a[3] < a[2])
    (* calls *)
    [] op = "batches"  -> (* <<parameters, arguments, given size>> *) a[1] > 0 /\ Say(op, a, a[2] % a[1] = 0)
    [] op = "need"     -> (* <<types of the parameters of each function, types of the arguments>> *)
         Say(op, a, \A f \in 1..Len(a[1]) : LET p == a[1][f] IN
                      p = <<>> \/ \E b \in 0..(Len(a[2]) - Len(p)) : \A i \in 1..Len(p) : a[2][b + i] = p[i])
    [] op = "each"     -> (* <<kind>> *) Say(op, a, a[1] \in {"types", "values", "list"})
    [] op \in {"ntht", "nthv"} -> (* <<length, index>> *) Say(op, a, a[2] < a[1])
    [] OTHER -> FALSE
TypeOK == ev.op = "new" \/ ev.r \in {0, 1}
===========================================================================
