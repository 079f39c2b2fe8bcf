------------------------------ MODULE AssocMC ------------------------------
(* Small exhaustive check that the operators of Assoc keep an ordered container ordered, its keys unique when they
   must be, and insertion, erasure and lookup consistent with each other. *)
EXTENDS Assoc
CONSTANTS K, V, MaxLen, Multi
VARIABLE s
Init == s = <<>>
Insert == \E k \in K, v \in V : Len(s) < MaxLen /\ s' = Inserted(s, k, v, TRUE, Multi)
Erase == \E p \in 0..(Len(s) - 1), n \in 1..MaxLen : p + n <= Len(s) /\ s' = CutAt(s, p, n)
EraseKey == \E k \in K : k \in Keys(s) /\ s' = WithoutKey(s, k)
Change == \E i \in 1..Len(s), v \in V : s' = [s EXCEPT ![i] = <<@[1], v>>]
Next == Insert \/ Erase \/ EraseKey \/ Change
Spec == Init /\ [][Next]_s
Sorted == IsSorted(s)
Unique == Multi \/ Cardinality(Keys(s)) = Len(s)
Bounds == \A k \in K : /\ Lower(s, k) <= Upper(s, k)
                       /\ (Lower(s, k) < Upper(s, k)) = (k \in Keys(s))
                       /\ \A i \in 1..Len(s) : (s[i][1] = k) = (i > Lower(s, k) /\ i <= Upper(s, k))
Whole == \A p \in 0..Len(s) : SameBag(Minus(s, SubSeq(s, 1, p)), SubSeq(s, p + 1, Len(s)))
\* inserting never disturbs the order or values of the entries that were there
Undisturbed == [][Len(s') = Len(s) + 1 => \E p \in 1..Len(s') : CutAt(s', p - 1, 1) = s]_s
=============================================================================
