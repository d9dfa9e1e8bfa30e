------------------------------ MODULE TupleAlgos ------------------------------
(* Algorithms on tuples.  Elements, tuples, categories and calls as in Tuple.  o: the contents of every
   tuple that was not an rvalue (<<>> for an rvalue), and the number of element copies if all were rvalues. *)
EXTENDS VF
VARIABLE ev
vars == ev
Tok(n) == <<"T", n>>
Cats == {"l", "c", "r"}
Init == ev = [op |-> "", a |-> <<>>, r |-> <<>>, o |-> <<>>]
Say(op, a, r, o) == ev' = [op |-> op, a |-> a, r |-> r, o |-> o]
After(ts, cs) == [ts |-> [i \in 1..Len(ts) |-> IF cs[i] = "r" THEN <<>> ELSE ts[i]], copies |-> 0]
One(t, c) == After(<<t>>, <<c>>)
RECURSIVE Concat(_)
Concat(ts) == IF ts = <<>> THEN <<>> ELSE Head(ts) \o Concat(Tail(ts))
MinLen(ts) == CHOOSE n \in {Len(ts[i]) : i \in 1..Len(ts)} : \A i \in 1..Len(ts) : Len(ts[i]) >= n
RowAt(ts, cs, i) == [j \in 1..Len(ts) |-> <<ts[j][i][1], ts[j][i][2], cs[j]>>]
Rows(ts, cs) == [i \in 1..MinLen(ts) |-> RowAt(ts, cs, i)]
Tokens(n) == [i \in 1..n |-> Tok(i)]
(* ---- quantifiers: the rows seen until the answer is known *)
RowSum(ts, i) == FoldFunction(LAMBDA x, y : x + y, 0, [j \in 1..Len(ts) |-> ts[j][i][2]])
Above(ts, i, k) == RowSum(ts, i) > k
Deciding(ts, k, want) == {i \in 1..MinLen(ts) : Above(ts, i, k) = want}
SeenUntil(ts, k, want) == LET D == Deciding(ts, k, want) IN IF D = {} THEN MinLen(ts) ELSE Min(D)
(* ---- names by which types are ordered; under projection 1 the types A, C and B, D fall together *)
Rank0(l) == CASE l = "I" -> 1 [] l = "L" -> 2 [] l = "S" -> 3 [] l = "A" -> 4 [] l = "B" -> 5 [] l = "C" -> 6
              [] l = "D" -> 7 [] l = "M" -> 8 [] l = "P" -> 9 [] l = "E" -> 13
Rank1(l) == IF l \in {"B", "D"} THEN 11 ELSE IF l \in {"A", "C"} THEN 12 ELSE Rank0(l)
Rank(p, e) == IF p = 1 THEN Rank1(e[1]) ELSE Rank0(e[1])
RECURSIVE Chunk(_, _)
Chunk(p, t) == IF t = <<>> THEN <<>>
               ELSE IF Len(t) = 1 THEN <<t>>
               ELSE LET rest == Chunk(p, Tail(t)) IN
                    IF Rank(p, t[1]) = Rank(p, t[2]) THEN <<<<t[1]>> \o rest[1]>> \o Tail(rest)
                    ELSE <<<<t[1]>>>> \o rest
(* every order of positions in which ranks ascend: elements of equal rank may come in any order (of equal
   elements only one order is listed) *)
RECURSIVE Orders(_, _, _)
Orders(p, t, left) == IF left = {} THEN {<<>>}
  ELSE LET m == Min({Rank(p, t[i]) : i \in left}) IN
       UNION {{<<i>> \o s : s \in Orders(p, t, left \ {i})} : 
              i \in {j \in left : Rank(p, t[j]) = m /\ ~ \E h \in left : h < j /\ t[h] = t[j]}}
Sorts(p, t) == {[k \in 1..Len(t) |-> t[s[k]]] : s \in Orders(p, t, 1..Len(t))}
Firsts(cs) == [i \in 1..Len(cs) |-> cs[i][1]]
RECURSIVE FirstOfEach(_, _)
FirstOfEach(t, seen) == IF t = <<>> THEN <<>>
  ELSE IF t[1][1] \in seen THEN FirstOfEach(Tail(t), seen)
  ELSE <<t[1]>> \o FirstOfEach(Tail(t), seen \cup {t[1][1]})
Keep(t) == SelectSeq(t, LAMBDA e : e[1] \in {"A", "C"})
RECURSIVE Product(_)
Product(ts) == IF ts = <<>> THEN <<<<>>>>
               ELSE LET rest == Product(Tail(ts)) IN
                    Concat([i \in 1..Len(ts[1]) |-> [j \in 1..Len(rest) |-> <<ts[1][i]>> \o rest[j]]])
WithCats(ts, cs) == [j \in 1..Len(ts) |-> [i \in 1..Len(ts[j]) |-> <<ts[j][i][1], ts[j][i][2], cs[j]>>]]
Act(op, a) ==
  CASE op = "new"    -> Say(op, a, <<>>, <<>>)
    [] op = "cat"    -> Say(op, a, Concat(a[1]), After(a[1], a[2]))
    [] op = "applyn" -> Say(op, a, <<<<Concat(WithCats(a[1], a[2]))>>, Tok(1)>>, After(a[1], a[2]))
    (* a = <<tuple, category, element, its category, how>> *)
    [] op = "cons"   -> Say(op, a, <<a[3]>> \o a[1], After(<<a[1], <<a[3]>>>>, <<a[2], a[4]>>))
    [] op = "snoc"   -> Say(op, a, a[1] \o <<a[3]>>, After(<<a[1], <<a[3]>>>>, <<a[2], a[4]>>))
    [] op = "filter" -> Say(op, a, Keep(a[1]), One(a[1], a[2]))
    [] op = "trans"  -> Say(op, a, <<Rows(a[1], a[2]), Tokens(MinLen(a[1]))>>, After(a[1], a[2]))
    [] op = "each"   -> Say(op, a, <<Rows(a[1], a[2]), MinLen(a[1])>>, After(a[1], a[2]))
    [] op = "enum"   -> Say(op, a, <<[i \in 1..MinLen(a[1]) |-> <<i - 1, RowAt(a[1], a[2], i)>>], MinLen(a[1])>>, After(a[1], a[2]))
    (* a = <<tuples, categories, limit, how>> *)
    [] op = "all"    -> Say(op, a, <<SubSeq(Rows(a[1], a[2]), 1, SeenUntil(a[1], a[3], FALSE)),
                                     B(Deciding(a[1], a[3], FALSE) = {})>>, After(a[1], a[2]))
    [] op = "any"    -> Say(op, a, <<SubSeq(Rows(a[1], a[2]), 1, SeenUntil(a[1], a[3], TRUE)),
                                     B(Deciding(a[1], a[3], TRUE) # {})>>, After(a[1], a[2]))
    [] op = "none"   -> Say(op, a, <<SubSeq(Rows(a[1], a[2]), 1, SeenUntil(a[1], a[3], TRUE)),
                                     B(Deciding(a[1], a[3], TRUE) = {})>>, After(a[1], a[2]))
    (* a = <<tuple, category, projection>> *)
    [] op = "chunk"  -> Say(op, a, Chunk(a[3], a[1]), One(a[1], a[2]))
    [] op = "sort"   -> \E s \in Sorts(a[3], a[1]) : Say(op, a, s, One(a[1], a[2]))
    [] op = "gather" -> \E s \in Sorts(a[3], a[1]) : Say(op, a, Chunk(a[3], s), One(a[1], a[2]))
    [] op = "unique" -> Say(op, a, Firsts(Chunk(0, a[1])), One(a[1], a[2]))
    [] op = "sset"   -> \E s \in {Firsts(Chunk(0, s)) : s \in Sorts(0, a[1])} : Say(op, a, s, One(a[1], a[2]))
    [] op = "uset"   -> Say(op, a, FirstOfEach(a[1], {}), One(a[1], a[2]))
    [] op = "cart"   -> Say(op, a, Product(WithCats(a[1], a[2])), After(a[1], a[2]))
    [] op = "cartc"  -> Say(op, a, Product(a[1]), [After(a[1], a[2]) EXCEPT !.copies = 0])
    [] op = "contains" -> Say(op, a, B(\E i \in 1..Len(a[1]) : a[1][i][1] = a[2]), <<>>)
    [] OTHER -> FALSE
TypeOK == TRUE
===========================================================================
