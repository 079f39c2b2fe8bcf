------------------------------- MODULE HelpersMC -------------------------------
(* The sort as it is done - median of three, partition, heap sort when it goes too deep - sorts whatever it is given; guards put things back. *)
EXTENDS Helpers
CONSTANTS MaxLen, Keys, MaxGuards
VARIABLES a, place, open, first
vars == <<a, place, open, first>>
Exchange(s, i, j) == [s EXCEPT ![i] = s[j], ![j] = s[i]]
If(c, s, i, j) == IF c THEN Exchange(s, i, j) ELSE s
Median(s, lo, hi) ==
    LET mid == lo + ((hi - lo) \div 2)
        s1 == If(s[mid] < s[lo], s, lo, mid)
        s2 == If(s1[hi] < s1[lo], s1, lo, hi)
    IN If(s2[mid] < s2[hi], s2, mid, hi)
\* <<sequence, place of the pivot>>
Partition(s, lo, hi) ==
    LET m == Median(s, lo, hi)
        r == FoldLeft(LAMBDA acc, j : IF acc[1][j] < acc[1][hi] THEN <<Exchange(acc[1], acc[2], j), acc[2] + 1>> ELSE acc, <<m, lo>>, [k \in 1..(hi - lo) |-> lo + k - 1])
    IN <<Exchange(r[1], r[2], hi), r[2]>>
RECURSIVE Sift(_, _, _, _)
\* root and end are counted from lo
Sift(s, lo, root, end) ==
    LET child == 2 * root + 1
        s1 == IF s[lo + root] < s[lo + child] THEN child ELSE root
        s2 == IF child + 1 < end /\ s[lo + s1] < s[lo + child + 1] THEN child + 1 ELSE s1
    IN IF child >= end \/ s2 = root THEN s ELSE Sift(Exchange(s, lo + root, lo + s2), lo, s2, end)
HeapSort(s, lo, hi) ==
    LET n == hi - lo + 1
        heap == FoldLeft(LAMBDA acc, k : Sift(acc, lo, k, n), s, [k \in 1..(n \div 2) |-> (n \div 2) - k])
    IN FoldLeft(LAMBDA acc, end : Sift(Exchange(acc, lo, lo + end), lo, 0, end), heap, [k \in 1..(n - 1) |-> n - k])
RECURSIVE Intro(_, _, _, _)
Intro(s, lo, hi, depth) ==
    IF hi <= lo THEN s
    ELSE IF depth = 0 THEN HeapSort(s, lo, hi)
    ELSE LET p == Partition(s, lo, hi) IN Intro(Intro(p[1], lo, p[2] - 1, depth - 1), p[2] + 1, hi, depth - 1)
Arrays == UNION {[1..n -> Keys] : n \in 1..MaxLen}
Counts(s, k) == Cardinality({i \in DOMAIN s : s[i] = k})
Sorts == \A depth \in 0..4 : LET r == Intro(a, 1, Len(a), depth) IN (\A i \in 1..(Len(r) - 1) : r[i] <= r[i + 1]) /\ \A k \in Keys : Counts(r, k) = Counts(a, k)
----------------------------------------------------------------------------
Values == {None, 0, 1}
Init == (a \in Arrays /\ place = 0 /\ open = <<>> /\ first = 0) \/ (a = <<>> /\ place \in Values /\ open = <<>> /\ first = place)
Restoring == {"flag", "counter", "optional_if"}
Open == a = <<>> /\ Len(open) < MaxGuards /\ \E kind \in Restoring, v \in {0, 1} : (kind = "counter" => place # None) /\ open' = Append(open, [kind |-> kind, was |-> place, ignored |-> FALSE]) /\ place' = Opened(kind, place, v) /\ UNCHANGED <<a, first>>
Close == open # <<>> /\ place' = Closed(open[Len(open)], place) /\ open' = SubSeq(open, 1, Len(open) - 1) /\ UNCHANGED <<a, first>>
Next == Open \/ Close
Spec == Init /\ [][Next]_vars
\* when all guards are closed again everything is as it was
PutBack == open = <<>> => place = first
=============================================================================
