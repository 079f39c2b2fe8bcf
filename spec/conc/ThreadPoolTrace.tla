---------------------------- MODULE ThreadPoolTrace ----------------------------
EXTENDS TraceBase, FiniteSets
VARIABLES p, c, ap
X == INSTANCE ThreadPool
vars == <<p, c, ap, l>>
TInit == InitCursor /\ l = 1 /\ p = X!Fresh(1) /\ c = <<>> /\ ap = <<>>
Silent == UNCHANGED <<l, ap>> /\ l <= Len(Trace) /\ Ev.e # "reset"
          /\ \/ \E q \in X!PoolSteps(p) : p' = q /\ c' = c
             \/ \E r \in UNION {X!Effects(p, c, t) : t \in DOMAIN c} : p' = r[1] /\ c' = r[2]
Next ==
    \/ Silent
    \/ IsEvent("reset") /\ p' = X!Fresh(Ev.size) /\ c' = [t \in 1..Ev.n |-> X!NoCall] /\ ap' = [t \in 1..Ev.n |-> {}]
    \/ IsEvent("call") /\ c[Ev.t] = X!NoCall /\ c' = [c EXCEPT ![Ev.t] = [X!NoCall EXCEPT !.op = Ev.op, !.k = Ev.k, !.pri = Ev.pri, !.n = Ev.m]] /\ UNCHANGED <<p, ap>>
    \/ IsEvent("ret") /\ c[Ev.t].op = Ev.op /\ c[Ev.t].done /\ c[Ev.t].res = Ev.res /\ c' = [c EXCEPT ![Ev.t] = X!NoCall] /\ UNCHANGED <<p, ap>>
    \/ IsEvent("begin") /\ X!CanBegin(p, Ev.k) /\ ~Ev.client /\ p' = X!Begin(p, Ev.k, Ev.th) /\ Cardinality(p'.ths) <= p.size /\ UNCHANGED <<c, ap>>
    \/ IsEvent("end") /\ X!CanEnd(p, Ev.k) /\ p' = X!End(p, Ev.k) /\ UNCHANGED <<c, ap>>
    \* parallel_apply (in histories of its own): every element once, all of them before it returns
    \/ IsEvent("apply") /\ ap' = [ap EXCEPT ![Ev.t] = 1..Ev.m] /\ UNCHANGED <<p, c>>
    \/ IsEvent("elem") /\ Ev.i \in ap[Ev.t] /\ ap' = [ap EXCEPT ![Ev.t] = @ \ {Ev.i}] /\ UNCHANGED <<p, c>>
    \/ IsEvent("applied") /\ ap[Ev.t] = {} /\ UNCHANGED <<p, c, ap>>
    \/ IsEvent("done") /\ (\A t \in DOMAIN c : c[t] = X!NoCall) /\ UNCHANGED <<p, c, ap>>
Spec == TInit /\ [][Next]_vars
=============================================================================
