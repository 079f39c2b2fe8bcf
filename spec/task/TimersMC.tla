------------------------------ MODULE TimersMC ------------------------------
(* Every history of two timers under starts, stops, context and task ends, time, and polls whose callbacks do all that again. *)
EXTENDS Timers, TLC
CONSTANTS Ids, MaxNow, Depth, Budget
VARIABLES m, cs, fr, now, task, left, arms, ran, log
vars == <<m, cs, fr, now, task, left, arms, ran, log>>
Init == m = [k \in Ids |-> IF k = 1 THEN NewTimer(1, 1) ELSE NewTimer(2, 0)] /\ cs = {1} /\ fr = <<>> /\ now = 0 /\ task = TRUE /\ left = Budget
        /\ arms = [k \in Ids |-> 0] /\ ran = [k \in Ids |-> 0] /\ log = "none"
Quiet == IF fr = <<>> THEN TRUE ELSE Top(fr).k # 0
Ops == {"again", "again_if", "cancel", "reset", "enable", "enablewait", "disable"}
Count(n) == [k \in Ids |-> arms[k] + IF n[k].w /\ (~m[k].w \/ n[k].due # m[k].due) THEN 1 ELSE 0]
Do(k, t, what) == m' = [m EXCEPT ![k] = t] /\ arms' = Count(m') /\ left' = left - 1 /\ log' = what /\ UNCHANGED <<cs, fr, now, task, ran>>
User == left > 0 /\ \E k \in Ids : m[k].alive /\
    \/ \E op \in Ops : Do(k, Op(m[k], op, now, task).t, op)
    \/ \E d \in 0..2, i \in BOOLEAN : Do(k, SetDur(m[k], d, i, now, task), "setdur")
    \/ \E j \in Ids \ {k} : m[j].alive /\ Do(k, Assign(m[k], m[j], now, task), "assign")
    \/ Do(k, Dead, "destroy")
Ends == left > 0 /\ left' = left - 1 /\ fr = <<>> /\ log' = "ends" /\ UNCHANGED <<m, fr, now, arms, ran>>
        /\ ((cs # {} /\ cs' = {} /\ UNCHANGED task) \/ (task /\ task' = FALSE /\ UNCHANGED cs))
Advance == now < MaxNow /\ now' = now + 1 /\ log' = "time" /\ UNCHANGED <<m, cs, fr, task, left, arms, ran>>
StartPoll == task /\ Len(fr) < Depth /\ Quiet /\ \E lim \in {0, 1} : fr' = Append(fr, Poll(lim)) /\ log' = "poll" /\ (fr # <<>> => left > 0) /\ left' = (IF fr = <<>> THEN left ELSE left - 1) /\ UNCHANGED <<m, cs, now, task, arms, ran>>
DoFire == \E k \in Ids : CanFire(m, cs, fr, now, k, task) /\ m' = Fire(m, k) /\ fr' = FireStack(fr, k) /\ ran' = [ran EXCEPT ![k] = @ + 1] /\ log' = "fire" /\ UNCHANGED <<cs, now, task, left, arms>>
Fired == fr # <<>> /\ Top(fr).k # 0 /\ fr' = Pop(fr) /\ log' = "fired" /\ UNCHANGED <<m, cs, now, task, left, arms, ran>>
EndPoll == \E res \in BOOLEAN : CanEndPoll(m, cs, fr, now, res, task) /\ fr' = Pop(fr) /\ m' = (IF Top(fr).lim = 0 THEN Expire(m, Spent(m, cs, now)) ELSE m)
           /\ log' = (IF Top(fr).lim = 0 THEN "polled" ELSE "polledsome") /\ UNCHANGED <<cs, now, task, left, arms, ran>>
Next == (Quiet /\ (User \/ Ends \/ Advance)) \/ StartPoll \/ DoFire \/ Fired \/ EndPoll
Spec == Init /\ [][Next]_vars /\ WF_vars(DoFire) /\ WF_vars(Fired) /\ WF_vars(EndPoll)
\* once per start at most, and only timers that are enabled wait
Once == \A k \in Ids : ran[k] + (IF m[k].w THEN 1 ELSE 0) <= arms[k]
WaitingEnabled == \A k \in Ids : m[k].w => m[k].en /\ m[k].alive
\* never early, never when stopped, never without its context or its task
NeverEarly == [][\A k \in Ids : ran'[k] # ran[k] => m[k].w /\ m[k].due <= now /\ CtxAlive(cs, m[k]) /\ task]_vars
\* a full poll leaves nothing due
Complete == log = "polled" => Due(m, now) = {}
\* a poll comes to an end
PollEnds == (fr # <<>>) ~> (fr = <<>>)
\* a poll never gets stuck
Moves == fr # <<>> => ENABLED (DoFire \/ Fired \/ EndPoll)
=============================================================================
