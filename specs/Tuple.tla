-------------------------------- MODULE Tuple --------------------------------
(* Tuples: an element is <<type letter, value>>, a tuple a sequence of elements.
   A tuple is used as a modifiable lvalue "l", a const lvalue "c" or an rvalue "r".
   Function objects handed to the library return a token ["T", n] for their n-th call, and every call is
   written down, so order, grouping and number of calls are visible.
   o is the contents of the tuple after the call (empty when it was an rvalue), and the number of element
   copies made when it was an rvalue (an rvalue's elements are never copied). *)
EXTENDS VF
VARIABLE ev
vars == ev
Tok(n) == <<"T", n>>
Cats == {"l", "c", "r"}
Init == ev = [op |-> "", a |-> <<>>, r |-> <<>>, o |-> <<>>]
Say(op, a, r, o) == ev' = [op |-> op, a |-> a, r |-> r, o |-> o]
After(t, c) == IF c = "r" THEN [t |-> <<>>, copies |-> 0] ELSE [t |-> t, copies |-> 0]
TypeCount(t, ty) == Cardinality({i \in 1..Len(t) : t[i][1] = ty})
WhereType(t, ty) == CHOOSE i \in 1..Len(t) : t[i][1] = ty
(* ---- folds: what each call gets, given that call n returns Tok(n); elements of an rvalue come as rvalues *)
LeftCalls(init, t, c) == [i \in 1..Len(t) |-> <<IF i = 1 THEN init ELSE Tok(i - 1), t[i], B(c = "r")>>]
RightCalls(init, t, c) == [i \in 1..Len(t) |-> <<t[(Len(t) + 1) - i], IF i = 1 THEN init ELSE Tok(i - 1), B(c = "r")>>]
Result(init, n) == IF n = 0 THEN init ELSE Tok(n)
JoinCalls(t) == [i \in 1..(Len(t) - 1) |-> <<IF i = 1 THEN t[1] ELSE Tok(i - 1), t[i + 1]>>]
(* ---- comparison: -1, 0, 1 or 2 for unordered *)
Cmp1(x, y) == IF x[1] = "P" /\ (x[2] = 99 \/ y[2] = 99) THEN 2
              ELSE IF x[2] < y[2] THEN -1 ELSE IF x[2] > y[2] THEN 1 ELSE 0
RECURSIVE Cmp(_, _)
Cmp(t, u) == IF t = <<>> THEN 0
             ELSE IF Cmp1(t[1], u[1]) # 0 THEN Cmp1(t[1], u[1]) ELSE Cmp(Tail(t), Tail(u))
Same(t, u) == \A i \in 1..Len(t) : Cmp1(t[i], u[i]) = 0
Six(t, u) == LET c == Cmp(t, u) IN
             <<B(Same(t, u)), B(~Same(t, u)), B(c = -1), B(c \in {-1, 0}), B(c = 1), B(c \in {1, 0})>>
WithCat(t, c) == [i \in 1..Len(t) |-> <<t[i][1], t[i][2], c>>]
Types(t) == [i \in 1..Len(t) |-> <<t[i][1], "v">>]
(* ways to reach an element: 0 get<I>, 1 t[index<I>], 2 t[I_idx], 3 get<type>, 4 t.get(tag<type>),
   5 get<key> of an indexed tuple, 6 get<I> of an indexed tuple, 7 get<type> of an indexed tuple,
   8 structured binding *)
ByType == {3, 4, 5, 7}
Indexed == {5, 6, 7}
Keyed == {"A", "B", "C", "D", "E", "M", "P"}              \* types that name a key
Reachable(t, i, how) == /\ i \in 1..Len(t)
                        /\ how \in ByType => TypeCount(t, t[i][1]) = 1
                        /\ how \in Indexed => \A j \in 1..Len(t) : t[j][1] \in Keyed
Act(op, a) ==
  CASE op = "new"   -> Say(op, a, <<>>, <<>>)
    [] op = "get"   -> (* a = <<tuple, category, position, how>> *)
         /\ Reachable(a[1], a[3], a[4])
         /\ Say(op, a, <<a[1][a[3]][1], a[1][a[3]][2], a[2]>>, After(a[1], a[2]))
    [] op = "getref" -> (* the tuple holds references to a[1]; always an lvalue *)
         Say(op, a, <<a[1][a[3]][1], a[1][a[3]][2], "l">>, After(a[1], a[2]))
    [] op = "set"   -> (* a = <<tuple, position, new value, how>> *)
         /\ Reachable(a[1], a[2], a[4])
         /\ Say(op, a, [a[1] EXCEPT ![a[2]] = <<a[1][a[2]][1], a[3]>>], <<>>)
    [] op = "setref" -> (* through a const tuple of references: the referred object changes *)
         Say(op, a, [a[1] EXCEPT ![a[2]] = <<a[1][a[2]][1], a[3]>>], <<>>)
    [] op = "foldl" -> Say(op, a, <<LeftCalls(Tok(0), a[1], a[2]), Result(Tok(0), Len(a[1]))>>, After(a[1], a[2]))
    [] op = "foldr" -> Say(op, a, <<RightCalls(Tok(0), a[1], a[2]), Result(Tok(0), Len(a[1]))>>, After(a[1], a[2]))
    [] op = "join"  -> /\ Len(a[1]) > 0
                       /\ Say(op, a, <<JoinCalls(a[1]), IF Len(a[1]) = 1 THEN a[1][1] ELSE Tok(Len(a[1]) - 1)>>,
                              After(a[1], a[2]))
    [] op = "joini" -> Say(op, a, IF Len(a[1]) = 0 THEN <<<<>>, <<"A", 77>>>>
                                  ELSE <<JoinCalls(a[1]), IF Len(a[1]) = 1 THEN a[1][1] ELSE Tok(Len(a[1]) - 1)>>,
                           After(a[1], a[2]))
    [] op = "apply" -> Say(op, a, <<<<WithCat(a[1], a[2])>>, Tok(1)>>, After(a[1], a[2]))
    [] op = "tail"  -> Say(op, a, IF a[1] = <<>> THEN <<>> ELSE Tail(a[1]), After(a[1], a[2]))
    [] op = "cmp"   -> Say(op, a, Six(a[1], a[2]), <<>>)
    [] op = "oneof" -> LET f == \E i \in 1..Len(a[1]) : a[1][i][2] = a[2] IN Say(op, a, <<B(f), B(f), B(~f)>>, <<>>)
    [] op = "make"  -> (* a = <<elements, category of each argument>>: contents, element types, lvalue arguments after *)
         Say(op, a, <<a[1], Types(a[1])>>, [i \in 1..Len(a[1]) |-> IF a[2][i] = "r" THEN <<>> ELSE a[1][i]])
    [] op = "fwd"   -> Say(op, a, [i \in 1..Len(a[1]) |-> <<a[1][i][1], a[2][i], 1>>], a[1])
    [] op = "traits" -> Say(op, a, <<Len(a[1]), Len(a[1]), B(Len(a[1]) = 0), Types(a[1])>>, <<>>)
    [] op = "eqidx" -> Say(op, a, a[1], After(a[1], a[2]))       \* apply_indices keeps the elements
    [] OTHER -> FALSE
TypeOK == TRUE
===========================================================================
