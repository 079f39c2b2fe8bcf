----------------------------- MODULE IndexedMC -----------------------------
EXTENDS Indexed
CONSTANTS Max, Lens
VARIABLE s
Elem == {1} \X Lens \X {0, 1} \X {0, 1}
Init == s = <<>>
Next == \/ \E p \in 0..Len(s), x \in Elem : Len(s) < Max /\ s' = InsertAt(s, p, <<x>>)
        \/ \E p \in 0..(Len(s) - 1) : s' = EraseAt(s, p, 1)
        \/ \E p \in 0..(Len(s) - 1), x \in Elem : s' = Update(s, p, x[2], x[3], x[4])
Spec == Init /\ [][Next]_s
\* a lookup inverts the offsets, and every offset is in exactly one span or gap
Inverse == /\ Disjoint(s)
           /\ \A i \in 1..Len(s) : \A d \in 0..(s[i][2] - 1) : At(s, Offset(s, i) + d) = i
           /\ \A i \in 1..Len(s) : \A d \in 1..s[i][3] : At(s, Offset(s, i) - d) = 0
           /\ \A i, j \in 1..Len(s) : i < j => Offset(s, i) + s[i][2] <= Offset(s, j)
=============================================================================
