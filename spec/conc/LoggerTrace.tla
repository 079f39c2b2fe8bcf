------------------------------ MODULE LoggerTrace ------------------------------
EXTENDS TraceBase
VARIABLES g, v, c, fmt
X == INSTANCE Logger
vars == <<g, v, c, fmt, l>>
TInit == InitCursor /\ l = 1 /\ g = <<>> /\ v = <<>> /\ c = <<>> /\ fmt = <<>>
Silent == UNCHANGED <<l, fmt>> /\ l <= Len(Trace) /\ Ev.e # "reset" /\ \E r \in UNION {X!Effects(g, v, c, t, fmt) : t \in DOMAIN c} : g' = r[1] /\ v' = r[2] /\ c' = r[3]
Next ==
    \/ Silent
    \/ IsEvent("reset") /\ g' = [i \in 1..3 |-> X!NewLogger(Ev.n)] /\ v' = [t \in 1..Ev.n |-> [i \in 1..3 |-> [sev |-> 2, cat |-> 0]]] /\ c' = [t \in 1..Ev.n |-> X!NoCall] /\ fmt' = Ev.fmt
    \/ IsEvent("call") /\ c[Ev.t] = X!NoCall /\ c' = [c EXCEPT ![Ev.t] = [X!NoCall EXCEPT !.op = Ev.op, !.lg = Ev.lg, !.a = Ev.a, !.need = X!Waiting(g[Ev.lg]), !.thr = g[Ev.lg].thr]] /\ UNCHANGED <<g, v, fmt>>
    \/ IsEvent("ret") /\ c[Ev.t].op = Ev.op /\ c[Ev.t].done /\ c[Ev.t].res = Ev.res /\ c' = [c EXCEPT ![Ev.t] = X!NoCall] /\ UNCHANGED <<g, v, fmt>>
    \/ IsEvent("format") /\ X!Formats(g, v, c, Ev.t, Ev.lg, Ev.id, Ev.line) /\ LET r == X!TakeFormatted(g, c, Ev.t) IN g' = r[1] /\ c' = r[2] /\ UNCHANGED <<v, fmt>>
    \/ IsEvent("write") /\ X!CanWrite(g[Ev.lg], Ev.items, fmt[Ev.lg]) /\ g' = [g EXCEPT ![Ev.lg] = X!Write(@, Ev.items)] /\ UNCHANGED <<v, c, fmt>>
    \/ IsEvent("done") /\ (\A t \in DOMAIN c : c[t] = X!NoCall) /\ (\A i \in DOMAIN g : ~g[i].alive /\ X!Waiting(g[i]) = {}) /\ UNCHANGED <<g, v, c, fmt>>
Spec == TInit /\ [][Next]_vars
=============================================================================
