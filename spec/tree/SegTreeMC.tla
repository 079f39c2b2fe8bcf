----------------------------- MODULE SegTreeMC -----------------------------
(* The tree with the counts each node keeps of its descendants and of those of them hidden below skipped nodes, which
   every edit adjusts along the path to the root: they always equal the numbers the traversals give. *)
EXTENDS SegTree
CONSTANTS MaxSize
VARIABLES t, desc, hid      \* counts: functions of 0..Len(t)
vars == <<t, desc, hid>>
Bit(t2, i) == IF i = 0 THEN 0 ELSE t2[i][3]
RECURSIVE Adjust(_, _, _, _, _)
\* counts <<desc, hid>> after dd and dh are added at node p and carried up
Adjust(t2, p, c, dd, dh) ==
    LET c2 == <<[c[1] EXCEPT ![p] = @ + dd], [c[2] EXCEPT ![p] = @ + dh]>> IN
    IF p = 0 THEN c2 ELSE Adjust(t2, Parent(t2, p), c2, dd, IF t2[p][3] = 1 THEN dd ELSE dh)
Shift(f, i, n, x) == [j \in 0..(n + 1) |-> IF j < i THEN f[j] ELSE IF j = i THEN x ELSE f[j - 1]]
Cut(f, i, l, n) == [j \in 0..(n - (l - i + 1)) |-> IF j < i THEN f[j] ELSE f[j + (l - i + 1)]]
Init == t = <<>> /\ desc = [i \in {0} |-> 0] /\ hid = [i \in {0} |-> 0]
DoInsert == \E p \in 0..Len(t) : \E c \in 0..Len(Kids(t, p)) :
    LET i == InsertPos(t, p, c) r == Adjust(Insert(t, p, c, 1), p, <<Shift(desc, i, Len(t), 0), Shift(hid, i, Len(t), 0)>>, 1, 0) IN
    Len(t) < MaxSize /\ t' = Insert(t, p, c, 1) /\ desc' = r[1] /\ hid' = r[2]
DoErase == \E i \in 1..Len(t) :
    LET p == Parent(t, i) l == LastOf(t, i) n == desc[i] h == IF t[i][3] = 1 THEN desc[i] ELSE hid[i]
        r == Adjust(Erase(t, i), p, <<Cut(desc, i, l, Len(t)), Cut(hid, i, l, Len(t))>>, -(n + 1), -h) IN
    t' = Erase(t, i) /\ desc' = r[1] /\ hid' = r[2]
DoSkip == \E i \in 1..Len(t), k \in {0, 1} :
    /\ t[i][3] # k /\ t' = Skip(t, i, k)
    /\ LET r == Adjust(t, Parent(t, i), <<desc, hid>>, 0, IF k = 1 THEN desc[i] - hid[i] ELSE hid[i] - desc[i]) IN desc' = r[1] /\ hid' = r[2]
Next == DoInsert \/ DoErase \/ DoSkip
Spec == Init /\ [][Next]_vars
Structure == Well(t)
Counts == \A i \in 0..Len(t) : desc[i] = LastOf(t, i) - i /\ (i > 0 => desc[i] = AllDescendents(t)[i])
Seen == LET V == Visible(t) IN Len(V) = desc[0] - hid[0] /\ \A i \in 1..Len(t) : (\E k \in 1..Len(V) : V[k] = i) <=> \A a \in Ancestors(t, i) : t[a][3] = 0
Family == \A i \in 1..Len(t) : LET K == Kids(t, Parent(t, i)) IN \E k \in 1..Len(K) : K[k] = i
=============================================================================
