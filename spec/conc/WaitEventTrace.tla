--------------------------- MODULE WaitEventTrace ---------------------------
EXTENDS TraceBase
VARIABLES s, c, q, w
X == INSTANCE WaitEvent
vars == <<s, c, q, w, l>>
ToSet(x) == {x[i] : i \in 1..Len(x)}
TInit == InitCursor /\ l = 1 /\ s = <<>> /\ c = <<>> /\ q = FALSE /\ w = FALSE
Silent == UNCHANGED <<l, q, w>> /\ l <= Len(Trace) /\ Ev.e # "reset" /\ \E t \in DOMAIN c : \E r \in X!Effects(s, c, t, q, w, Trace[l - 1].now, Ev.now) : s' = r[1] /\ c' = r[2]
Next ==
    \/ Silent
    \/ IsEvent("reset") /\ s' = [k \in 1..Ev.k |-> 0] /\ c' = [t \in 1..Ev.n |-> X!Idle] /\ q' = FALSE /\ w' = FALSE
    \/ IsEvent("call") /\ c[Ev.t] = X!Idle /\ UNCHANGED <<s, q, w>>
          /\ c' = [c EXCEPT ![Ev.t] = [X!Idle EXCEPT !.op = Ev.op, !.on = ToSet(Ev.on), !.timed = Ev.ms >= 0, !.ms = Ev.ms * 1000, !.q = Ev.q, !.w = Ev.w, !.since = Ev.now]]
    \/ IsEvent("ret") /\ UNCHANGED <<s, q, w>> /\ c' = [c EXCEPT ![Ev.t] = X!Idle]
          /\ LET x == c[Ev.t] IN x.op = Ev.op /\ x.done /\ x.res = Ev.res /\ (X!Waits(x.op) => x.k = Ev.k)
    \/ IsEvent("post") /\ q' = TRUE /\ UNCHANGED <<s, c, w>>
    \/ IsEvent("ready") /\ w' = TRUE /\ UNCHANGED <<s, c, q>>
    \/ IsEvent("done") /\ (\A t \in DOMAIN c : c[t] = X!Idle) /\ UNCHANGED <<s, c, q, w>>
    \/ IsEvent("stuck") /\ Ev.why = "deadlock" /\ X!Asleep(s, c) /\ UNCHANGED <<s, c, q, w>>
Spec == TInit /\ [][Next]_vars
=============================================================================
