------------------------------ MODULE SegTree ------------------------------
(* A tree of values (segmented_tree).  A tree is the sequence of its nodes in depth-first order, each <<value, depth,
   skipped>>; the depth of the children of the root is 0.  The root itself holds no value; it is node 0. *)
EXTENDS Integers, Sequences, SequencesExt, FiniteSets, TLC
Depth(t, i) == IF i = 0 THEN -1 ELSE t[i][2]
Idx(t) == [i \in 1..Len(t) |-> i]
\* the parent of every node: the nearest earlier node one level up
Parents(t) ==
    FoldLeft(LAMBDA a, i : LET s == Append(SubSeq(a[1], 1, t[i][2]), i) IN <<s, Append(a[2], IF t[i][2] = 0 THEN 0 ELSE s[t[i][2]])>>,
             <<<<>>, <<>>>>, Idx(t))[2]
\* the children of every node, those of the root first
AllKids(t) == LET P == Parents(t) IN
    FoldLeft(LAMBDA a, i : [a EXCEPT ![P[i] + 1] = Append(@, i)], [i \in 1..(Len(t) + 1) |-> <<>>], Idx(t))
\* the number of descendants of every node
AllDescendents(t) == LET P == Parents(t) IN
    FoldLeft(LAMBDA a, i : IF P[i] = 0 THEN a ELSE [a EXCEPT ![P[i]] = @ + 1 + a[i]], [i \in 1..Len(t) |-> 0], Reverse(Idx(t)))
Kids(t, p) == AllKids(t)[p + 1]
Parent(t, i) == Parents(t)[i]
\* last node of the subtree of node i
LastOf(t, i) == IF i = 0 THEN Len(t)
              ELSE LET R == {j \in (i + 1)..Len(t) : t[j][2] <= t[i][2]} IN IF R = {} THEN Len(t) ELSE (CHOOSE j \in R : \A k \in R : j <= k) - 1
RECURSIVE Up(_, _)
Up(P, p) == IF p = 0 THEN {} ELSE {p} \union Up(P, P[p])
Ancestors(t, i) == LET P == Parents(t) IN Up(P, P[i])
\* nodes a traversal omitting skipped subtrees visits; the accumulator's second part is the depth of the skipped node whose subtree is being passed
Visible(t) ==
    FoldLeft(LAMBDA a, i : IF t[i][2] > a[2] THEN a ELSE <<Append(a[1], i), IF t[i][3] = 1 THEN t[i][2] ELSE 1000000>>,
             <<<<>>, 1000000>>, Idx(t))[1]
Values(t, s) == [k \in 1..Len(s) |-> t[s[k]][1]]
Well(t) == \A i \in 1..Len(t) : t[i][2] >= 0 /\ t[i][2] <= (IF i = 1 THEN 0 ELSE t[i - 1][2] + 1)
----
\* the value v becomes the c-th child (from 0) of node p
InsertPos(t, p, c) == LET k == Kids(t, p) IN IF c = Len(k) THEN LastOf(t, p) + 1 ELSE k[c + 1]
Insert(t, p, c, v) == LET i == InsertPos(t, p, c) IN SubSeq(t, 1, i - 1) \o <<<<v, Depth(t, p) + 1, 0>>>> \o SubSeq(t, i, Len(t))
Erase(t, i) == SubSeq(t, 1, i - 1) \o SubSeq(t, LastOf(t, i) + 1, Len(t))
Skip(t, i, k) == [t EXCEPT ![i] = <<t[i][1], t[i][2], k>>]
SetValue(t, i, v) == [t EXCEPT ![i] = <<v, t[i][2], t[i][3]>>]
\* siblings in order of their values everywhere (values are distinct); down: in the opposite order
RECURSIVE SortKids(_, _, _, _)
SortKids(t, K, p, down) ==
    FoldLeft(LAMBDA a, i : a \o <<t[i]>> \o SortKids(t, K, i, down), <<>>,
             SortSeq(K[p + 1], LAMBDA x, y : IF down THEN t[x][1] > t[y][1] ELSE t[x][1] < t[y][1]))
Sorted(t, down) == LET K == AllKids(t) IN SortKids(t, K, 0, down)
=============================================================================
