---------------------------- MODULE SegTreeTrace ----------------------------
(* Histories of two segmented trees: after each call, everything every traversal of the tree shows. *)
EXTENDS TraceBase
VARIABLE q      \* the two trees
X == INSTANCE SegTree
vars == <<q, l>>
Value(t, i) == IF i = 0 THEN 0 ELSE t[i][1]
All(t) == [i \in 1..Len(t) |-> i]
Observed(m) ==
    /\ Ev.live = Len(m[1]) + Len(m[2]) /\ Ev.bad = 0
    /\ \A o \in 1..2 : Ev.all[o] = X!Values(m[o], All(m[o])) /\ Ev.sizes[o] = Len(m[o]) /\ Ev.none[o] = (Len(m[o]) = 0)
    /\ LET t == m[Ev.o] V == X!Visible(t) P == X!Parents(t) D == X!AllDescendents(t) K == X!AllKids(t) IN
       /\ Ev.nodes = [i \in 1..Len(t) |-> <<t[i][1], t[i][2], D[i], t[i][3], Value(t, P[i])>>]
       /\ Ev.back = X!Reverse(X!Values(t, All(t)))
       /\ Ev.seen = X!Values(t, V) /\ Ev.nees = X!Reverse(Ev.seen) /\ Ev.cseen = Ev.seen /\ Ev.ksize = Len(V)
       /\ Ev.sib = [i \in 1..(Len(t) + 1) |-> X!Values(t, K[i])]
       /\ Ev.bis = [i \in 1..(Len(t) + 1) |-> X!Reverse(Ev.sib[i])]
Put(o, s) == q' = [q EXCEPT ![o] = s] /\ Observed(q')
S == q[Ev.o]
TInit == l = 1 /\ q = <<<<>>, <<>>>>
Next ==
    \/ IsEvent("reset") /\ q' = <<<<>>, <<>>>> /\ Observed(q')
    \* p: node (0 the root); c: position among its children; at: the node an iterator to the new value sees
    \/ IsEvent("insert") /\ Put(Ev.o, X!Insert(S, Ev.p, Ev.c, Ev.v)) /\ Ev.at = <<Ev.v, X!Depth(S, Ev.p) + 1>>
    \/ IsEvent("append") /\ Put(Ev.o, X!Insert(S, Ev.p, Len(X!Kids(S, Ev.p)), Ev.v))
    \/ IsEvent("prepend") /\ Put(Ev.o, X!Insert(S, Ev.p, 0, Ev.v))
    \* next: the value following what was erased, 0 if nothing does
    \/ IsEvent("erase") /\ Put(Ev.o, X!Erase(S, Ev.p)) /\ Ev.next = (IF X!LastOf(S, Ev.p) = Len(S) THEN 0 ELSE S[X!LastOf(S, Ev.p) + 1][1])
    \/ IsEvent("skip") /\ Put(Ev.o, X!Skip(S, Ev.p, 1))
    \/ IsEvent("unskip") /\ Put(Ev.o, X!Skip(S, Ev.p, 0))
    \/ IsEvent("value") /\ Put(Ev.o, X!SetValue(S, Ev.p, Ev.v))
    \/ IsEvent("sort") /\ Put(Ev.o, X!Sorted(S, Ev.down = 1))
    \/ IsEvent("clear") /\ Put(Ev.o, <<>>)
    \/ IsEvent("copy") /\ Put(Ev.o, q[3 - Ev.o])
Spec == TInit /\ [][Next]_vars
=============================================================================
