------------------------------ MODULE Headers ------------------------------
(* Which headers can be included, how, and in which kinds of build: every documented header, before and after every
   other and again after itself, in every kind of build. A program that includes a header may use what it documents
   without including anything else. *)
EXTENDS VF
VARIABLE ev
vars == <<ev>>
Headers == {"algorithm", "array", "atomic", "atomic_bitset", "bit", "bitset", "byterator", "cached", "call_by_need", "compiler", "concepts",
            "ct_conversions", "ct_format", "ct_string", "cx_map", "cx_multimap", "cx_queue", "cx_set", "cx_vector", "env", "for_each_n_args",
            "function_traits", "functional", "intrusive_forward_list", "intrusive_list", "iterator", "latched", "numeric", "optional", "panic",
            "pp_map", "priority", "ranges", "rollover", "span", "static_assert", "tuple", "tuple_algorithms", "tuple_destructure", "type_traits",
            "udls", "utility"}
Builds == {"plain", "bare", "small", "clang"}
Init == ev = [op |-> "", a |-> <<>>, r |-> <<>>, o |-> <<>>]
Say(op, a, r) == ev' = [op |-> op, a |-> a, r |-> r, o |-> <<>>]
Act(op, a) ==
  CASE op = "new"   -> Say(op, a, <<>>)
    [] op = "use"   -> (* <<header, build>> *) a[1] \in Headers /\ a[2] \in Builds /\ Say(op, a, 1)
    [] op = "order" -> (* <<headers, build, the last whose documented uses follow>> *)
         (\A i \in 1..Len(a[1]) : a[1][i] \in Headers) /\ a[2] \in Builds /\ (\E i \in 1..Len(a[1]) : a[1][i] = a[3]) /\ Say(op, a, 1)
    [] OTHER -> FALSE
TypeOK == TRUE
===========================================================================
