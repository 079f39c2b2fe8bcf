------------------------------- MODULE XmlMC -------------------------------
(* Writing, as an algorithm - layout with new lines and indents, escaping, empty element tags - against Read:
   every document that edits build, written, reads back as the same; and no text cut short reads as a document. *)
EXTENDS XmlDoc, TLC
CONSTANT MaxNodes
VARIABLES doc, indent
vars == <<doc, indent>>
Ancestor(d, i, k) == LET S == {j \in 1..i : d[j][2] = k} IN CHOOSE j \in S : \A h \in S : h <= j
NL == <<10>>
Tabs(n) == [i \in 1..(n * indent) |-> 9]
Attrs(A) == FoldLeft(LAMBDA a, x : a \o <<32>> \o x[1] \o <<61, 34>> \o Encode(x[2]) \o <<34>>, <<>>, SetToSeq(A))
HasKids(d, i) == i < Len(d) /\ d[i + 1][2] > d[i][2]
Opened(d, i) ==
    LET n == d[i] line == (IF n[2] = 1 THEN <<>> ELSE NL) \o Tabs(n[2] - 1) IN
    CASE n[1] = "e" -> line \o <<60>> \o n[3] \o Attrs(n[4]) \o (IF HasKids(d, i) THEN <<62>> ELSE IF n[4] = {} THEN <<47, 62>> ELSE <<32, 47, 62>>)
      [] n[1] = "t" -> Encode(n[3])
      [] n[1] = "c" -> line \o <<60, 33, 45, 45>> \o n[3] \o <<45, 45, 62>>
LastKid(d, i) == LET K == Kids(d, i) IN K[Len(K)]
\* the end tags after node i: those of the elements it is the last node of
Ends(d, i) ==
    LET next == IF i = Len(d) THEN 1 ELSE d[i + 1][2]
        ks == [k \in 1..(d[i][2] - next) |-> d[i][2] - k]
    IN FoldLeft(LAMBDA a, k : LET j == Ancestor(d, i, k) IN a \o (IF IsText(d[LastKid(d, j)]) THEN <<>> ELSE NL \o Tabs(k - 1)) \o <<60, 47>> \o d[j][3] \o <<62>>, <<>>, ks)
    \o (IF next = 1 THEN NL ELSE <<>>)
Written == FoldLeft(LAMBDA a, i : a \o Opened(doc, i) \o Ends(doc, i), <<>>, [i \in DOMAIN doc |-> i])

Names == {<<97>>, <<98>>}
Texts == {<<120>>, <<32>>, <<60, 38>>, <<10, 120, 9>>}
Elements == {i \in DOMAIN doc : doc[i][1] = "e"}
Init == doc = <<Node("e", 1, <<97>>)>> /\ indent \in {0, 1}
Next == UNCHANGED indent /\
    \/ Len(doc) < MaxNodes /\ \E p \in Elements, x \in Names, c \in 0..1 : c <= Len(Kids(doc, p)) /\ doc' = Put(doc, p, IF c = 0 THEN 0 ELSE Len(Kids(doc, p)), "e", x)
    \/ Len(doc) < MaxNodes /\ \E p \in Elements, x \in Texts : doc' = Put(doc, p, Len(Kids(doc, p)), "t", x)
    \/ Len(doc) < MaxNodes /\ \E p \in Elements \cup {0} : doc' = Put(doc, p, 0, "c", <<60, 97, 62>>)
    \/ \E p \in Elements : p <= 2 /\ doc[p][4] = {} /\ doc' = Attribute(doc, p, <<97>>, <<34, 10, 39, 62>>)
    \/ \E p \in DOMAIN doc : doc[p][2] > 1 /\ doc' = Erase(doc, p)
Spec == Init /\ [][Next]_vars
RoundTrip == LET r == Read(Written, FALSE) IN r.v = "good" /\ Same(r.nodes, FALSE) = Same(doc, FALSE)
Stripped == LET r == Read(Written, TRUE) IN r.v = "good"
Cut == LET w == Written IN \A n \in {1, 2, 3, 4, Len(w) \div 2, Len(w) - 3, Len(w) - 2} : n \in 1..Len(w) =>
        LET r == Read(SubSeq(w, 1, n), FALSE) IN r.v # "good" \/ (Same(r.nodes, FALSE) # <<>> /\ Len(r.nodes) <= Len(Read(w, FALSE).nodes) /\ doc[Len(doc)][2] = 1)
Again == LET r == Read(Written, FALSE) IN Same(Same(r.nodes, FALSE), FALSE) = Same(r.nodes, FALSE)
=============================================================================
