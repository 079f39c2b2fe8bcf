--------------------------- MODULE ThreadLifeTrace ---------------------------
EXTENDS TraceBase
VARIABLES o, c, q
X == INSTANCE ThreadLife
vars == <<o, c, q, l>>
P == Len(c)                   \* the procedure's own calls
Own(t) == t = P \/ (o.attach /\ t = 1)
TInit == InitCursor /\ l = 1 /\ o = X!Fresh(FALSE, FALSE) /\ c = <<>> /\ q = FALSE
Silent == UNCHANGED <<l, q>> /\ l <= Len(Trace) /\ Ev.e # "reset"
          /\ \E r \in X!Procedure(o, c) \cup UNION {X!Effects(o, c, t, Own(t), q) : t \in DOMAIN c} : o' = r[1] /\ c' = r[2]
Next ==
    \/ Silent
    \/ IsEvent("reset") /\ o' = X!Fresh(Ev.attach, Ev.fail) /\ c' = [t \in 1..Ev.n |-> X!Idle] /\ q' = FALSE
    \/ IsEvent("call") /\ c[Ev.t] = X!Idle /\ c' = [c EXCEPT ![Ev.t] = [X!Idle EXCEPT !.op = Ev.op, !.w = Ev.w, !.seen = IF Ev.op \in X!Queries THEN {o.st} ELSE {}]] /\ UNCHANGED <<o, q>>
    \/ IsEvent("ret") /\ c[Ev.t].op = Ev.op /\ Ev.res \in X!Answers(o, c, Ev.t, Own(Ev.t)) /\ c' = [c EXCEPT ![Ev.t] = X!Idle] /\ UNCHANGED <<o, q>>
    \/ IsEvent("begin") /\ X!CanBegin(o) /\ o' = X!Begin(o) /\ UNCHANGED <<c, q>>
    \/ IsEvent("end") /\ X!CanEnd(o) /\ o' = X!Ends(o) /\ UNCHANGED <<c, q>>
    \/ IsEvent("throw") /\ o' = [o EXCEPT !.threw = TRUE] /\ UNCHANGED <<c, q>>
    \/ IsEvent("post") /\ q' = TRUE /\ UNCHANGED <<o, c>>
    \/ IsEvent("done") /\ (\A t \in DOMAIN c : c[t] = X!Idle) /\ o.life \in {"none", "gone"} /\ UNCHANGED <<o, c, q>>
Spec == TInit /\ [][Next]_vars
=============================================================================
