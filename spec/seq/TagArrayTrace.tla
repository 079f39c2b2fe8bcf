--------------------------- MODULE TagArrayTrace ---------------------------
EXTENDS TraceBase, SequencesExt
VARIABLE q      \* the two arrays
X == INSTANCE TagArray
vars == <<q, l>>
\* segments cover the elements once and in order, hold one tag each, are never empty nor larger than they may be
Spans(s, w, cap) ==
    LET B == FoldLeft(LAMBDA a, n : Append(a, a[Len(a)] + n), <<0>>, w) IN
    /\ B[Len(B)] = Len(s)
    /\ \A k \in 1..Len(w) : w[k] \in 1..cap /\ \A i \in (B[k] + 1)..B[k + 1] : s[i][1] = s[B[k] + 1][1]
Observed(m) ==
    /\ Ev.vals = m /\ Ev.sizes = <<Len(m[1]), Len(m[2])>> /\ Ev.none = <<m[1] = <<>>, m[2] = <<>>>>
    /\ Ev.live = Len(m[1]) + Len(m[2]) /\ Ev.bad = 0
    /\ \A o \in 1..2 : Spans(m[o], Ev.spans[o], Ev.cap)
Put(o, s) == q' = [q EXCEPT ![o] = s] /\ Observed(q')
\* the call returned an iterator to position p of the array
Points(p) == Ev.res = p /\ Ev.at = (IF p < Len(q'[Ev.o]) THEN q'[Ev.o][p + 1][2] ELSE 0)
S == q[Ev.o]
TInit == l = 1 /\ q = <<<<>>, <<>>>>
Next ==
    \/ IsEvent("reset") /\ q' = <<<<>>, <<>>>> /\ Observed(q')
    \/ IsEvent("insert") /\ Put(Ev.o, X!Insert(S, Ev.p, X!Tagged(Ev.tag, Ev.xs))) /\ (Ev.res # -1 => Points(Ev.p))
    \/ IsEvent("graft") /\ Put(Ev.o, X!Insert(S, Ev.p, SubSeq(q[3 - Ev.o], Ev.b + 1, Ev.q))) /\ Points(Ev.p)
    \/ IsEvent("erase") /\ Put(Ev.o, X!Erase(S, Ev.p, Ev.n)) /\ Points(Ev.p)
    \/ IsEvent("value") /\ Put(Ev.o, X!SetValue(S, Ev.p, Ev.v))
    \/ IsEvent("copy") /\ Put(Ev.o, q[3 - Ev.o])
    \/ IsEvent("self") /\ UNCHANGED q /\ Observed(q)
    \/ IsEvent("swap") /\ q' = <<q[2], q[1]>> /\ Observed(q')
    \/ IsEvent("make") /\ Put(Ev.o, X!Tagged(Ev.tag, Ev.xs))
    \/ IsEvent("at") /\ UNCHANGED q /\ Observed(q) /\ Ev.res = S[Ev.p + 1][2] /\ Ev.off = S[Ev.p2 + 1][2] /\ Ev.dist = Ev.p - Ev.p2 /\ Ev.cdist = Ev.dist
          /\ Ev.less = (Ev.p < Ev.p2) /\ Ev.eq = (X!Values(q[1]) = X!Values(q[2]))
    \/ IsEvent("rev") /\ UNCHANGED q /\ Observed(q) /\ Ev.res = X!Reversed(X!Values(S))
    \/ IsEvent("gone") /\ UNCHANGED q /\ Ev.live = 0 /\ Ev.bad = 0
Spec == TInit /\ [][Next]_vars
=============================================================================
