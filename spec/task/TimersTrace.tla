------------------------------ MODULE TimersTrace ------------------------------
EXTENDS TraceBase, FiniteSets
VARIABLES m, cs, fr, now, task
T == INSTANCE Timers
vars == <<m, cs, fr, now, task, l>>
Slots == 1..4
TInit == l = 1 /\ m = [k \in Slots |-> T!Dead] /\ cs = {} /\ fr = <<>> /\ now = 0 /\ task = TRUE
Checked(t) == Ev.w = t.w /\ Ev.en = t.en /\ Ev.dur = t.dur
Put(k, t) == Checked(t) /\ m' = [m EXCEPT ![k] = t]
Same == UNCHANGED <<cs, fr, now, task>>
Next ==
    \/ IsEvent("reset") /\ m' = [k \in Slots |-> T!Dead] /\ cs' = {1, 2} /\ fr' = <<>> /\ now' = 0 /\ task' = TRUE
    \/ IsEvent("new") /\ ~m[Ev.k].alive /\ Put(Ev.k, IF Ev.wait THEN T!Arm(T!NewTimer(Ev.dur, Ev.ctx), now, task) ELSE T!NewTimer(Ev.dur, Ev.ctx)) /\ Same
    \/ IsEvent("copy") /\ ~m[Ev.k].alive /\ m[Ev.from].alive /\ Put(Ev.k, T!Copy(m[Ev.from], now, task)) /\ Same
    \/ IsEvent("assign") /\ m[Ev.k].alive /\ m[Ev.from].alive /\ Put(Ev.k, T!Assign(m[Ev.k], m[Ev.from], now, task)) /\ Same
    \/ IsEvent("op") /\ m[Ev.k].alive /\ (LET r == T!Op(m[Ev.k], Ev.op, now, task) IN Ev.res = r.res /\ Put(Ev.k, r.t)) /\ Same
    \/ IsEvent("setdur") /\ m[Ev.k].alive /\ Put(Ev.k, T!SetDur(m[Ev.k], Ev.d, Ev.imm, now, task)) /\ Same
    \/ IsEvent("look") /\ m[Ev.k].alive /\ Checked(m[Ev.k]) /\ UNCHANGED <<m, cs, fr, now, task>>
    \/ IsEvent("destroy") /\ m[Ev.k].alive /\ m' = [m EXCEPT ![Ev.k] = T!Dead] /\ Same
    \/ IsEvent("ctxdie") /\ cs' = cs \ {Ev.x} /\ UNCHANGED <<m, fr, now, task>>
    \/ IsEvent("taskdie") /\ task' = FALSE /\ UNCHANGED <<m, cs, fr, now>>
    \/ IsEvent("advance") /\ now' = now + Ev.d /\ UNCHANGED <<m, cs, fr, task>>
    \/ IsEvent("poll") /\ fr' = Append(fr, T!Poll(Ev.lim)) /\ UNCHANGED <<m, cs, now, task>>
    \/ IsEvent("fire") /\ T!CanFire(m, cs, fr, now, Ev.k, task) /\ m' = T!Fire(m, Ev.k) /\ Checked(m'[Ev.k]) /\ fr' = T!FireStack(fr, Ev.k) /\ UNCHANGED <<cs, now, task>>
    \/ IsEvent("fired") /\ T!Top(fr).k = Ev.k /\ fr' = T!Pop(fr) /\ UNCHANGED <<m, cs, now, task>>
    \/ IsEvent("polled") /\ T!CanEndPoll(m, cs, fr, now, Ev.res, task) /\ fr' = T!Pop(fr)
       /\ m' = (IF T!Top(fr).lim = 0 /\ task THEN T!Expire(m, T!Spent(m, cs, now)) ELSE m) /\ UNCHANGED <<cs, now, task>>
    \* a callback that throws ends the poll that made it
    \/ IsEvent("pollx") /\ T!InPoll(fr) /\ T!Top(fr).n > 0 /\ fr' = T!Pop(fr) /\ UNCHANGED <<m, cs, now, task>>
Spec == TInit /\ [][Next]_vars
=============================================================================
