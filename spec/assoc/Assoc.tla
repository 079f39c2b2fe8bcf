------------------------------- MODULE Assoc -------------------------------
(* Associative containers (map, multimap, set, multiset, their unordered variants, mutable sets): what each operation
   does to the entries <<key, value>>.  Entries are kept as a sequence: in key order, equal keys in order of insertion,
   for the ordered containers; in an arbitrary order, up to permutation, for the unordered ones. *)
EXTENDS Integers, Sequences, FiniteSets

Range(s) == {s[i] : i \in 1..Len(s)}
Keys(s) == {s[i][1] : i \in 1..Len(s)}
Count(s, x) == Cardinality({i \in 1..Len(s) : s[i] = x})
SameBag(s, t) == Len(s) = Len(t) /\ \A x \in Range(s) : Count(s, x) = Count(t, x)
\* equal keys are adjacent in the iteration of an unordered multi container
Grouped(s) == \A i, j \in 1..Len(s) : (i < j /\ s[i][1] = s[j][1]) => \A k \in i..j : s[k][1] = s[i][1]

Lower(s, k) == Cardinality({i \in 1..Len(s) : s[i][1] < k})       \* 0-based position of the first entry not before k
Upper(s, k) == Cardinality({i \in 1..Len(s) : s[i][1] <= k})
IsSorted(s) == \A i \in 1..(Len(s) - 1) : s[i][1] <= s[i + 1][1]
PutAt(s, p, x) == SubSeq(s, 1, p) \o <<x>> \o SubSeq(s, p + 1, Len(s))
CutAt(s, p, n) == SubSeq(s, 1, p) \o SubSeq(s, p + n + 1, Len(s))
IndexOf(s, k) == CHOOSE i \in 1..Len(s) : s[i][1] = k

\* insertion: a container with unique keys that has the key is left unchanged
Inserted(s, k, v, ordered, multi) ==
    IF ~multi /\ k \in Keys(s) THEN s
    ELSE IF ordered THEN PutAt(s, Upper(s, k), <<k, v>>) ELSE Append(s, <<k, v>>)
ValueFor(s, k) == s[IndexOf(s, k)][2]
WithValue(s, k, v) == [s EXCEPT ![IndexOf(s, k)] = <<k, v>>]
RECURSIVE Built(_, _, _, _)
Built(s, items, ordered, multi) ==
    IF items = <<>> THEN s ELSE Built(Inserted(s, items[1][1], items[1][2], ordered, multi), Tail(items), ordered, multi)
WithoutKey(s, k) == SelectSeq(s, LAMBDA e : e[1] # k)
RECURSIVE Minus(_, _)
Minus(s, xs) == IF xs = <<>> THEN s
                ELSE LET i == CHOOSE j \in 1..Len(s) : s[j] = xs[1] IN Minus(CutAt(s, i - 1, 1), Tail(xs))
EntryLess(a, b) == a[1] < b[1] \/ (a[1] = b[1] /\ a[2] < b[2])
LexLess(s, t) ==
    LET n == IF Len(s) < Len(t) THEN Len(s) ELSE Len(t)
        d == {i \in 1..n : s[i] # t[i]}
    IN IF d = {} THEN Len(s) < Len(t)
       ELSE LET m == CHOOSE i \in d : \A j \in d : i <= j IN EntryLess(s[m], t[m])
=============================================================================
