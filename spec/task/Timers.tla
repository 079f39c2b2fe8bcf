-------------------------------- MODULE Timers --------------------------------
(* neolib::timer / callback_timer polled by the timer service of their task. Time is given. A timer that waits fires in the
   first poll at or after its deadline, once; a poll goes on until no timer is due (callbacks can make more due), unless it
   is limited in number. m: timers by id, fr: the stack of polls and callbacks in progress. *)
EXTENDS Integers, Sequences, FiniteSets
Dead == [alive |-> FALSE, dur |-> 0, en |-> FALSE, w |-> FALSE, due |-> 0, ctx |-> 0]
NewTimer(d, x) == [alive |-> TRUE, dur |-> d, en |-> TRUE, w |-> FALSE, due |-> 0, ctx |-> x]
CtxAlive(cs, t) == t.ctx = 0 \/ t.ctx \in cs
Due(m, now) == {k \in DOMAIN m : m[k].alive /\ m[k].w /\ m[k].due <= now}
Firable(m, cs, now) == {k \in Due(m, now) : CtxAlive(cs, m[k])}
\* arms a timer; with the task gone nothing happens
Arm(t, now, task) == IF ~task THEN t ELSE [t EXCEPT !.en = TRUE, !.w = TRUE, !.due = now + t.dur]
Stop(t) == [t EXCEPT !.w = FALSE]
Op(t, op, now, task) ==
    CASE op = "again" -> IF ~task THEN [t |-> t, res |-> "ok"] ELSE IF t.w THEN [t |-> t, res |-> "waiting"] ELSE [t |-> Arm(t, now, task), res |-> "ok"]
      [] op = "again_if" -> [t |-> IF t.w THEN t ELSE Arm(t, now, task), res |-> "ok"]
      [] op = "cancel" -> [t |-> Stop(t), res |-> "ok"]
      [] op = "reset" -> [t |-> Arm(Stop(t), now, task), res |-> "ok"]
      [] op = "enable" -> IF t.en THEN [t |-> t, res |-> "enabled"] ELSE [t |-> [t EXCEPT !.en = TRUE], res |-> "ok"]
      [] op = "enablewait" -> IF t.en THEN [t |-> t, res |-> "enabled"] ELSE [t |-> Arm([t EXCEPT !.en = TRUE], now, task), res |-> "ok"]
      [] op = "disable" -> IF ~t.en THEN [t |-> t, res |-> "disabled"] ELSE [t |-> [Stop(t) EXCEPT !.en = FALSE], res |-> "ok"]
SetDur(t, d, imm, now, task) == LET u == [t EXCEPT !.dur = d] IN IF imm /\ t.w THEN Arm(Stop(u), now, task) ELSE u
Assign(t, o, now, task) == LET u == [Stop(t) EXCEPT !.dur = o.dur, !.en = o.en] IN IF o.w THEN Arm(u, now, task) ELSE u
Copy(o, now, task) == LET u == [NewTimer(o.dur, o.ctx) EXCEPT !.en = o.en] IN IF o.w THEN Arm(u, now, task) ELSE u
\* a poll of at most lim expiries (0: as many as there are)
Poll(lim) == [k |-> 0, lim |-> lim, n |-> 0]
Callback(k) == [k |-> k, lim |-> 0, n |-> 0]
Top(fr) == fr[Len(fr)]
Pop(fr) == SubSeq(fr, 1, Len(fr) - 1)
InPoll(fr) == fr # <<>> /\ Top(fr).k = 0
CanFire(m, cs, fr, now, k, task) == InPoll(fr) /\ task /\ k \in Firable(m, cs, now) /\ (Top(fr).lim = 0 \/ Top(fr).n < Top(fr).lim)
Fire(m, k) == [m EXCEPT ![k] = Stop(@)]
FireStack(fr, k) == Append([fr EXCEPT ![Len(fr)].n = @ + 1], Callback(k))
\* timers whose context has gone expire without a call
Spent(m, cs, now) == {k \in Due(m, now) : ~CtxAlive(cs, m[k])}
Expire(m, ks) == [k \in DOMAIN m |-> IF k \in ks THEN Stop(m[k]) ELSE m[k]]
\* an unlimited poll leaves nothing due behind; a limited one has done what it was allowed or all there was
CanEndPoll(m, cs, fr, now, res, task) ==
    LET s == Spent(m, cs, now) IN
    /\ InPoll(fr)
    /\ IF ~task THEN ~res
       ELSE /\ (Top(fr).lim = 0 => Firable(m, cs, now) = {})
            /\ (Top(fr).n > 0 => res)
            /\ (Top(fr).n = 0 => (res => s # {}))
            /\ (res \/ Firable(m, cs, now) = {})
===============================================================================
