------------------------------ MODULE EventsMC ------------------------------
(* Every history of up to Budget operations with nesting, over a few events, slots, one sink and two threads.
   log remembers, for each trigger and each queued callback, who was called with what. *)
EXTENDS Events, TLC
CONSTANTS Budget, MaxDepth
VARIABLES st, n, log, went   \* n operations so far (also the trigger arguments); log: <<slot, arg>> calls; went: slots unsubscribed -> at
vars == <<st, n, log, went>>
Init == st = Start /\ n = 0 /\ log = <<>> /\ went = [s \in Slots |-> 0]
Can(t) == n < Budget /\ Len(st.fr[t]) < MaxDepth /\ (Busy(st, t) => Top(st, t).cur # 0)
Op(t, new) == Can(t) /\ n' = n + 1 /\ st' = new /\ log' = log
             /\ went' = [s \in Slots |-> IF Subscribed(st, s) /\ ~Subscribed(new, s) THEN n + 1 ELSE went[s]]
Ops(t) ==
    \/ \E e \in Evs : ~st.ev[e].up /\ st.ev[e] = NoEv /\ (\A s \in Slots : st.sl[s].ev # e) /\ \E y \in 0..3 : Op(t, NewEv(st, e, y))
    \/ \E e \in Evs : st.ev[e].up /\ Op(t, DelEv(st, e))
    \/ \E e \in Evs, s \in Slots, p, em \in BOOLEAN, sta \in BOOLEAN : st.ev[e].up /\ st.sl[s].ev = 0 /\ (\A r \in Slots : r < s => st.sl[r].ev # 0)
          /\ \/ Op(t, Hold(Sub(st, s, e, p, em, sta, t), s)) \/ \E k \in Sinks : Op(t, SinkSet(Sub(st, s, e, p, em, sta, t), k, s))
    \/ \E s \in st.hd : Op(t, Unsub(st, {s})) \/ Op(t, Drop(st, s))
    \/ \E k \in Sinks : st.sk[k] # <<>> /\ Op(t, SinkClear(st, k))
    \/ \E e \in Evs : st.ev[e].up /\ IF IsAsync(st, e, "auto") THEN Op(t, AsyncTrigger(st, t, e, n + 1)) ELSE Op(t, BeginTrigger(st, t, e, n + 1))
    \/ \E e \in Evs : Busy(st, t) /\ st.ev[e].up /\ Op(t, Accept(st, t, e))
    \/ (st.q[t].m # <<>> \/ st.q[t].s # {}) /\ Op(t, BeginPump(st, t))
Free(new, c) == st' = new /\ log' = (IF c = <<>> THEN log ELSE Append(log, c)) /\ UNCHANGED <<n, went>>
Steps(t) ==
    \/ \E s \in Slots, a \in 1..n : CanCall(st, t, s, a) /\ Free(Call(st, t, s, a), <<s, a, IF Top(st, t).k = "trig" THEN t ELSE -t>>)
    \/ Busy(st, t) /\ Top(st, t).cur # 0 /\ (Free(Return(st, t), <<>>) \/ Free(IF Top(st, t).k = "trig" THEN Pop(st, t) ELSE ThrowPump(st, t), <<>>))
    \/ Busy(st, t) /\ CanEndTrigger(st, t) /\ Free(EndTrigger(st, t), <<>>)
    \/ Busy(st, t) /\ CanEndPump(st, t) /\ Free(Pop(st, t), <<>>)
Next == \E t \in Threads : Ops(t) \/ Steps(t)
Spec == Init /\ [][Next]_vars
\* nobody is called twice for one trigger, nor called for a trigger made after it was unsubscribed
OncePerTrigger == \A i, j \in 1..Len(log) : i # j => <<log[i][1], log[i][2]>> # <<log[j][1], log[j][2]>>
NotAfterUnsub == \A i \in 1..Len(log) : went[log[i][1]] = 0 \/ log[i][2] < went[log[i][1]]
OwnThread == \A i \in 1..Len(log) : LET s == st.sl[log[i][1]] IN s.em \/ log[i][3] = s.thr \/ log[i][3] = -s.thr
\* a thread that is executing something can always go on
Progress == \A t \in Threads : Busy(st, t) =>
    Top(st, t).cur # 0 \/ CanEndTrigger(st, t) \/ CanEndPump(st, t) \/ \E s \in Slots, a \in 1..n : CanCall(st, t, s, a)
=============================================================================
