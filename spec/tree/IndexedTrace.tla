---------------------------- MODULE IndexedTrace ----------------------------
EXTENDS TraceBase
VARIABLE q
X == INSTANCE Indexed
vars == <<q, l>>
Observed(m) ==
    /\ Ev.sizes = <<Len(m[1]), Len(m[2])>>
    /\ \A o \in 1..2 : Ev.vals[o] = [i \in 1..Len(m[o]) |-> <<m[o][i][1], m[o][i][2], m[o][i][3], m[o][i][4], X!Offset(m[o], i), i - 1>>]
    /\ Ev.tot = <<X!Sum(m[1]), X!Sum(m[2])>>
Put(o, s) == q' = [q EXCEPT ![o] = s] /\ Observed(q')
TInit == l = 1 /\ q = <<<<>>, <<>>>>
S == q[Ev.o]
Next ==
    \/ IsEvent("reset") /\ q' = <<<<>>, <<>>>> /\ Observed(q')
    \/ IsEvent("insert") /\ Put(Ev.o, X!InsertAt(S, Ev.p, Ev.xs)) /\ Ev.res = Ev.p
    \/ IsEvent("fill") /\ Put(Ev.o, X!InsertAt(S, Ev.p, X!Times(Ev.n, Ev.xs[1]))) /\ Ev.res = Ev.p
    \/ IsEvent("erase") /\ Put(Ev.o, X!EraseAt(S, Ev.p, Ev.n)) /\ Ev.res = Ev.p
    \/ IsEvent("resize") /\ Put(Ev.o, IF Ev.n <= Len(S) THEN SubSeq(S, 1, Ev.n) ELSE S \o X!Times(Ev.n - Len(S), Ev.xs[1]))
    \/ IsEvent("update") /\ Put(Ev.o, X!Update(S, Ev.p, Ev.xs[1][2], Ev.xs[1][3], Ev.xs[1][4]))
    \/ IsEvent("value") /\ Put(Ev.o, X!SetValue(S, Ev.p, Ev.v))
    \/ IsEvent("copy") /\ Put(Ev.o, q[Ev.f])
    \/ IsEvent("swap") /\ q' = <<q[2], q[1]>> /\ Observed(q')
    \/ IsEvent("find") /\ UNCHANGED q /\ Observed(q) /\
          \A j \in 1..Len(Ev.res) : LET o == Ev.res[j][1] i == X!At(S, o) IN
              Ev.res[j] = IF i = 0 THEN <<o, Len(S), X!Sum(S)>> ELSE <<o, i - 1, X!Offset(S, i)>>
    \/ IsEvent("at") /\ UNCHANGED q /\ Observed(q) /\ Ev.res = S[Ev.p + 1][1] /\ Ev.idx = Ev.p /\ Ev.dist = Ev.p - Ev.p2
    \/ IsEvent("rev") /\ UNCHANGED q /\ Observed(q) /\ Ev.res = [i \in 1..Len(S) |-> S[Len(S) + 1 - i][1]]
Spec == TInit /\ [][Next]_vars
=============================================================================
