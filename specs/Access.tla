-------------------------------- MODULE Access --------------------------------
(* What is handed out by which kind of object: who may change what.
   An object is "l" (can be changed), "c" (const) or "r" (about to end). What an accessor gives is
   "value", or a reference "l", "c" or "r" to what the object holds, or "none" if there is no such access.
   A type is <<name, element>>, the element being "int", "str" or another of Elems; of views also "const int". *)
EXTENDS VF
VARIABLE ev
vars == ev
Init == ev = [op |-> "", a |-> <<>>, r |-> "", o |-> <<>>]
Say(op, a, r) == ev' = [op |-> op, a |-> a, r |-> r, o |-> <<>>]
Owners == {"cx_vector", "cx_queue", "cx_set", "cx_map", "cx_multimap", "optional", "tuple", "indexed_tuple"}
Lazy == {"latched", "cached"}
Views == {"span", "fixed span", "byterator"}
Lists == {"list", "forward list"}
(* ---- access *)
Accessors == [cx_vector |-> {"front", "back", "[]", "get<0>", "stdx::get<0>", "*begin", "*cbegin", "*rbegin", "*crbegin", "push_back", "pop_back", "size"},
              cx_queue |-> {"front", "back", "push", "pop", "size"},
              cx_set |-> {"*begin", "*cbegin", "pop_back", "contains", "size"},
              cx_map |-> {"*begin", "*cbegin", "get", "pop_back", "contains", "size"},
              cx_multimap |-> {"*begin", "*cbegin", "get", "contains", "size"},
              optional |-> {"value", "*", "*->", "value_or", "has_value", "emplace", "transform", "and_then", "|", "transform 2"},
              tuple |-> {"get<0>", "get<T>", "[]", "apply", "apply 2", "for_each", "transform", "transform 2", "enumerate", "all_of", "size"},
              indexed_tuple |-> {"get<0>", "get<T>", "[]", "get(tag)", "apply", "for_each", "transform", "size"},
              latched |-> {"value", "*", "*->", "has_value"}, cached |-> {"value", "*", "*->", "has_value", "refresh"},
              span |-> {"front", "back", "[]", "stdx::get<0>", "*begin", "*cbegin", "*rbegin", "*crbegin", "*data", "size"},
              byterator |-> {"*", "*->", "[]"},
              list |-> {"front", "back", "*begin", "*cbegin", "*pop_front", "empty"}]
Has(t) == Accessors[CASE t = "fixed span" -> "span" [] t = "forward list" -> "list" [] OTHER -> t]
Plain == {"size", "contains", "has_value", "empty", "value_or"}      \* answers, not access
Taking == {"pop_back", "pop"}                                        \* changes the object, gives a value
Making == {"push_back", "push", "emplace", "refresh"}                \* changes the object, gives a reference to what is new
Fixedly == {"*cbegin", "*crbegin"}                                   \* never for changing
Refs == {"int &", "const int &"}                                     \* elements of tuples that are references
Inner(e) == IF e \in {"const int", "const int &"} THEN "c" ELSE "l"
Gives(t, e, x, k) ==
  CASE x \in Plain -> "value"
    [] x \in Taking -> IF k = "c" THEN "none" ELSE "value"
    [] x \in Making -> IF k = "c" THEN "none" ELSE "l"
    [] x \in Fixedly -> "c"
    [] x = "*pop_front" -> IF k = "c" THEN "none" ELSE "l"
    [] t \in Lazy -> "c"
    [] t \in Views -> Inner(e)
    [] t \in Lists -> IF x = "*begin" /\ k = "c" THEN "c" ELSE "l"   \* nodes are not part of the list
    [] e \in Refs -> Inner(e)
    [] k = "r" -> IF x = "*->" THEN "l" ELSE "r"
    [] OTHER -> k
Expiring(t, x) == t \in {"optional", "tuple", "indexed_tuple"} /\ x \notin Making  \* the types that give up what they hold
(* ---- changes *)
Changes == [cx_vector |-> {"push_back", "pop_back", "clear", "resize_and_overwrite", "="}, cx_queue |-> {"push", "pop", "clear", "="},
            cx_set |-> {"insert", "erase", "merge", "clear", "pop_back", "="}, cx_map |-> {"put", "insert_or_assign", "erase", "clear", "pop_back", "="},
            cx_multimap |-> {"insert", "put", "erase", "erase one", "clear", "="}, optional |-> {"emplace", "reset", "= nullopt", "= value", "="},
            tuple |-> {"="}, cached |-> {"reset", "refresh", "="}, span |-> {"="}, byterator |-> {"++", "--", "+=", "-=", "advance", "read", "="},
            list |-> {"push_front", "push_back", "pop_front", "clear"},
            bitset |-> {"set", "reset", "flip", "set one", "reset one", "flip one", "&=", "|=", "^=", "<<=", ">>=", "="},
            type_bitset |-> {"set", "reset", "flip", "set one", "reset one", "flip one", "&=", "|=", "^=", "="},
            atomic |-> {"store", "exchange", "fetch_add", "++", "+=", "= value"}, atomic_bitset |-> {"store", "set", "reset", "flip", "set one"},
            rollover |-> {"++", "--", "+=", "-=", "*=", "/=", "%=", "="}]
Answers == [cx_vector |-> {"size", "empty", "full", "capacity", "=="}, cx_queue |-> {"size", "empty", "full", "capacity"}, cx_set |-> {"size", "empty", "contains", "capacity"},
            cx_map |-> {"size", "empty", "full", "contains", "capacity"}, cx_multimap |-> {"size", "empty", "contains", "contains one", "capacity"},
            optional |-> {"has_value", "bool", "value_or", "==", "<", "transform", "and_then", "or_else", "|"}, tuple |-> {"size", "apply", "=="},
            cached |-> {"has_value", "bool", "value"}, span |-> {"size", "size_bytes", "empty", "first", "last", "subspan"}, byterator |-> {"==", "<", "+", "-"},
            list |-> {"empty"}, bitset |-> {"[]", "all", "any", "none", "count", "to_natural", "lowest_unset", "==", "&", "|", "^", "~", "-", "<<", ">>"},
            type_bitset |-> {"[]", "all", "any", "none", "count", "to_natural", "==", "&", "|", "^", "~", "-"},
            atomic |-> {"load", "read"}, atomic_bitset |-> {"load", "[]", "all", "any", "none", "count", "to_natural", "read"}, rollover |-> {"as_underlying", "==", "+", "-", "cmp_less"}]
(* ---- what a type can do depending on what it holds *)
Elems == {"int", "str", "mov", "pin", "eqo", "agg", "nod"}  \* of which "mov" can only be moved, "pin" not even that, "nod" has no default
Able(e, w) == CASE w \in {"copy", "copy ="} -> e \notin {"mov", "pin"}
                [] w \in {"move", "move ="} -> e # "pin"
                [] w = "default" -> e # "nod"
                [] w = "trivial" -> e \notin {"str", "pin"}   \* copied (or moved) byte by byte
                [] w = "==" -> e \in {"int", "str", "eqo"}
                [] w = "<=>" -> e \in {"int", "str"}
Traits == {"copy", "move", "copy =", "move =", "default", "trivial", "==", "<=>"}
Handles == {"copy", "move", "copy =", "move =", "trivial"}
(* not asked: bytewise copies of what cannot be copied, comparisons of vectors and atomics that are no part of their types *)
Asked(t, w) == CASE w = "trivial" -> t[1] # "atomic" /\ \A i \in 1..Len(t[2]) : t[2][i] # "pin"
                 [] w \in {"==", "<=>"} -> t[1] # "atomic" /\ (t[1] = "cx_vector" => t[2][1] \in {"int", "str", "eqo"})
                 [] w = "default" -> t[1] # "fixed span"
                 [] OTHER -> TRUE
Does(t, w) == CASE t[1] = "atomic" -> w = "default"
                [] t[1] \in {"bitset", "type_bitset", "rollover", "optional"} -> w # "<=>"
                [] t[1] \in {"byterator"} -> w \in Handles \cup {"==", "<=>"}
                [] t[1] = "span" -> w \in Handles \cup {"default"}
                [] t[1] = "fixed span" -> w \in Handles
                [] t[1] \in {"tuple", "indexed_tuple"} -> \A i \in 1..Len(t[2]) : Able(t[2][i], w)
                [] t[1] = "cx_vector" -> w # "<=>" /\ \A i \in 1..Len(t[2]) : Able(t[2][i], w)
                [] t[1] \in {"cx_queue", "cx_set", "cx_map"} -> w \notin {"==", "<=>"} /\ \A i \in 1..Len(t[2]) : Able(t[2][i], w)
(* ---- the element types of what tuple algorithms give; a type is <<base, const, reference>> *)
Bare(t) == IF t[1] = "arr" THEN <<IF t[2] = 1 THEN "cptr" ELSE "ptr", 0, "">>      \* kept by value: arrays and functions as pointers
           ELSE IF t[1] = "fun" THEN <<"funptr", 0, "">> ELSE <<t[1], 0, "">>
Seen(t, k) == IF t[3] # "" THEN <<t[1], t[2], "&">>                    \* an element got from an object of kind k
              ELSE <<t[1], IF k = "c" THEN 1 ELSE t[2], IF k = "r" THEN "&&" ELSE "&">>
Got(l, k) == [i \in 1..Len(l) |-> Seen(l[i], k)]
Bares(l) == [i \in 1..Len(l) |-> Bare(l[i])]
IsRef(t) == t[3] # ""
First(l) == SelectSeq([i \in 1..Len(l) |-> <<l[i], \A j \in 1..(i - 1) : l[j] # l[i]>>], LAMBDA p : p[2])
Firsts(l) == [i \in 1..Len(First(l)) |-> First(l)[i][1]]
Runs(l) == FoldLeft(LAMBDA acc, x : IF acc # <<>> /\ acc[Len(acc)][1] = x THEN [acc EXCEPT ![Len(acc)] = Append(@, x)] ELSE Append(acc, <<x>>), <<>>, l)
Heads(ll) == [i \in 1..Len(ll) |-> ll[i][1]]
Flat(l, m) == [n \in 1..(Len(l) * Len(m)) |-> <<l[((n - 1) \div Len(m)) + 1], m[((n - 1) % Len(m)) + 1]>>]
OneList == {"tail", "filter", "sames", "values", "indexed", "chunk", "unique", "set", "members", "types"}
Result(alg, k, l, m) ==
  CASE alg = "cat" -> l \o m
    [] alg = "cons" -> <<Bare(m[1])>> \o l [] alg = "push_front" -> <<Bare(m[1])>> \o l
    [] alg = "snoc" -> Append(l, Bare(m[1])) [] alg = "push_back" -> Append(l, Bare(m[1]))
    [] alg = "tail" -> Tail(l)
    [] alg = "filter" -> SelectSeq(l, IsRef)
    [] alg = "sames" -> Got(l, k)           \* transform by a function that gives back its argument as it came
    [] alg = "values" -> Bares(l)           \* transform by a function that gives a value
    [] alg = "indexed" -> Bares(l)          \* the same as "sames", into an indexed tuple
    [] alg = "chunk" -> Runs(l)
    [] alg = "unique" -> Heads(Runs(l))
    [] alg = "set" -> Firsts(l)
    [] alg = "members" -> l                 \* apply_indices
    [] alg = "types" -> l                   \* tuple_element of each position
    [] alg = "product" -> LET x == Flat(Got(l, k), Got(m, k)) IN [i \in 1..Len(x) |-> x[i]]
    [] alg = "product_copy" -> Flat(Bares(l), Bares(m))
    [] alg = "make" -> Bares(l)             \* make_tuple of arguments of these types
    [] alg = "forward" -> [i \in 1..Len(l) |-> <<l[i][1], l[i][2], IF l[i][3] = "&" THEN "&" ELSE "&&">>]
    [] alg = "deduce" -> Bares(l)
(* how many elements or groups the result has, then how often the type of each element occurs in it *)
Regroups == {"sort", "sorted set", "gather"}
Counts(alg, l) == <<IF alg = "sort" THEN Len(l) ELSE Cardinality(Range(l))>> \o
                  [i \in 1..Len(l) |-> IF alg = "sorted set" THEN 1 ELSE Cardinality({j \in 1..Len(l) : l[j] = l[i]})]
Algs == OneList \cup {"cat", "cons", "push_front", "snoc", "push_back", "product", "product_copy", "make", "forward", "deduce"}
Sane(alg, k, l, m) == /\ (alg \in OneList => m = <<>>)
                      /\ (alg \in {"cons", "push_front", "snoc", "push_back"} => Len(m) = 1)
                      /\ (alg = "tail" => l # <<>>)
                      /\ (alg \in {"product"} => k # "r")
                      /\ (alg \in {"product", "product_copy"} => l # <<>> /\ m # <<>>)
                      /\ (alg \in {"make", "forward", "deduce"} => m = <<>> /\ k = "l")
                      /\ (alg = "cat" => TRUE)
Rank == [input |-> 1, forward |-> 2, bidirectional |-> 3, random_access |-> 4, contiguous |-> 5]
Act(op, a) ==
  CASE op = "new"  -> Say(op, a, <<>>)
    [] op = "read" -> (* <<type, element, accessor, object>> *)
         /\ a[3] \in Has(a[1]) /\ (a[4] = "r" => Expiring(a[1], a[3])) /\ ~(a[1] = "byterator" /\ a[3] = "[]" /\ a[4] = "c")
         /\ Say(op, a, Gives(a[1], a[2], a[3], a[4]))
    [] op = "call" -> (* <<type, member, object>> *)
         LET t == CASE a[1] = "forward list" -> "list" [] a[1] = "fixed span" -> "span" [] OTHER -> a[1] IN
           /\ a[3] \in {"l", "c"} /\ a[2] \in Changes[t] \cup Answers[t]
           /\ Say(op, a, B(a[3] = "l" \/ a[2] \in Answers[t]))
    [] op = "able" -> (* <<<<type, elements>>, trait>> *) Asked(a[1], a[2]) /\ Say(op, a, B(Does(a[1], a[2])))
    [] op = "result" -> (* <<algorithm, object, types, types>> *)
         /\ a[1] \in Algs /\ Sane(a[1], a[2], a[3], a[4]) /\ Say(op, a, Result(a[1], a[2], a[3], a[4]))
    [] op = "regroup" -> (* <<algorithm, object, types>>; the order of the types is free, so they are counted *)
         /\ a[1] \in Regroups /\ Say(op, a, Counts(a[1], a[3]))
    [] op = "walk" -> (* <<type, const, iterator concept>> *)
         /\ (a[1] \in Lists => Rank[a[3]] <= 2) /\ Say(op, a, 1)   \* lists are walked one way at least, the others any way
    [] op = "iconv" -> (* <<type, from const, to const>> *)
         /\ a[1] \in Lists => a[2] = a[3] \/ a[2] = 1
         /\ Say(op, a, B(a[2] <= a[3]))
    [] OTHER -> FALSE
TypeOK == ev.op \in {"", "new", "read", "result", "regroup"} \/ ev.r \in {0, 1}
===========================================================================
