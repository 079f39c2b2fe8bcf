------------------------------ MODULE Indexed ------------------------------
(* The indexed list: elements <<value, length, gap before, gap after>>; an element's foreign index is the sum of
   everything before it, its own leading gap included. *)
EXTENDS Integers, Sequences
Total(x) == x[2] + x[3] + x[4]
RECURSIVE Sum(_)
Sum(s) == IF s = <<>> THEN 0 ELSE Total(Head(s)) + Sum(Tail(s))
Start(s, i) == Sum(SubSeq(s, 1, i - 1))       \* where element i's share begins (1-based)
Offset(s, i) == IF i > Len(s) THEN Sum(s) ELSE Start(s, i) + s[i][3]
\* the element whose span holds offset o: 0 if o falls in a gap or outside
At(s, o) == LET I == {i \in 1..Len(s) : o >= Offset(s, i) /\ o < Offset(s, i) + s[i][2]} IN IF I = {} THEN 0 ELSE CHOOSE i \in I : TRUE
InsertAt(s, p, x) == SubSeq(s, 1, p) \o x \o SubSeq(s, p + 1, Len(s))          \* p elements before it
EraseAt(s, p, n) == SubSeq(s, 1, p) \o SubSeq(s, p + n + 1, Len(s))
Times(n, x) == [i \in 1..n |-> x]
Update(s, p, len, b, a) == [s EXCEPT ![p + 1] = <<@[1], len, b, a>>]
SetValue(s, p, v) == [s EXCEPT ![p + 1] = <<v, @[2], @[3], @[4]>>]
\* spans never overlap, so that a lookup has at most one answer
Disjoint(s) == \A o \in 0..Sum(s) : \A i, j \in 1..Len(s) :
    (o >= Offset(s, i) /\ o < Offset(s, i) + s[i][2] /\ o >= Offset(s, j) /\ o < Offset(s, j) + s[j][2]) => i = j
=============================================================================
