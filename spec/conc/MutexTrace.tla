----------------------------- MODULE MutexTrace -----------------------------
EXTENDS TraceBase
VARIABLES m, c      \* the locks, the call in progress of each thread
X == INSTANCE Mutex
vars == <<m, c, l>>
T == DOMAIN c
On(op, k) == IF op \in {"lockall", "unlockall"} THEN DOMAIN m ELSE {k}
TInit == InitCursor /\ l = 1 /\ m = <<>> /\ c = <<>>
Silent == UNCHANGED l /\ l <= Len(Trace) /\ Ev.e # "reset" /\ \E t \in T : \E r \in X!Effects(m, c, t) : m' = r[1] /\ c' = [c EXCEPT ![t] = r[2]]
Next ==
    \/ Silent
    \/ IsEvent("reset") /\ m' = [k \in 1..Ev.m |-> X!Free] /\ c' = [t \in 1..Ev.n |-> X!Idle]
    \/ IsEvent("call") /\ c[Ev.t] = X!Idle /\ c' = [c EXCEPT ![Ev.t] = X!Called(Ev.op, On(Ev.op, Ev.m))] /\ UNCHANGED m
    \/ IsEvent("ret") /\ c[Ev.t].op = Ev.op /\ c[Ev.t].done /\ c[Ev.t].res = Ev.res /\ c' = [c EXCEPT ![Ev.t] = X!Idle] /\ UNCHANGED m
    \/ IsEvent("done") /\ (\A k \in DOMAIN m : m[k] = X!Free) /\ (\A t \in T : c[t] = X!Idle) /\ UNCHANGED <<m, c>>     \* every thread of a history releases what it took: it ends
Spec == TInit /\ [][Next]_vars
=============================================================================
