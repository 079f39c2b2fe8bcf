----------------------------- MODULE WaitEventMC -----------------------------
(* Waiting, signalling and resetting threads on a few events, exhaustively. *)
EXTENDS WaitEvent, TLC
CONSTANTS Threads, Events
VARIABLES s, c, q, sent, got      \* sent, got: signals sent, waits ended by a signal, at each event (counted to Cap)
vars == <<s, c, q, sent, got>>
Cap == 3
Init == s = [k \in Events |-> 0] /\ c = [t \in Threads |-> Idle] /\ q = FALSE /\ sent = [k \in Events |-> 0] /\ got = [k \in Events |-> 0]
Call(t, x) == c[t] = Idle /\ c' = [c EXCEPT ![t] = x] /\ UNCHANGED <<s, q, sent, got>>
Wait(t) == \E k \in Events : Call(t, [Idle EXCEPT !.op = "wait", !.on = {k}])
TimedWait(t) == \E k \in Events : Call(t, [Idle EXCEPT !.op = "wait", !.on = {k}, !.timed = TRUE])
MessageWait(t) == \E k \in Events : Call(t, [Idle EXCEPT !.op = "wait", !.on = {k}, !.q = TRUE])
ListWait(t) == Call(t, [Idle EXCEPT !.op = "list", !.on = Events])
SignalOne(t) == \E k \in Events : sent[k] < Cap /\ Call(t, [Idle EXCEPT !.op = "one", !.on = {k}])
SignalAll(t) == \E k \in Events : sent[k] < Cap /\ Call(t, [Idle EXCEPT !.op = "all", !.on = {k}])
Clear(t) == \E k \in Events : Call(t, [Idle EXCEPT !.op = "clear", !.on = {k}])
Ended(a, b, k) == Cardinality({t \in Threads : Busy(a, t) /\ ~Busy(b, t) /\ Waits(a[t].op) /\ b[t].res = "event" /\ b[t].k = k})
Effect(t) == \E r \in Effects(s, c, t, q, FALSE, 0, 0) : /\ s' = r[1] /\ c' = r[2] /\ q' = q
    /\ sent' = (IF c[t].op \in {"one", "all"} THEN [k \in Events |-> IF k \in c[t].on THEN sent[k] + (IF c[t].op = "one" THEN 1 ELSE Max(1, Ended(c, r[2], k))) ELSE sent[k]] ELSE sent)
    /\ got' = [k \in Events |-> got[k] + Ended(c, r[2], k)]
Return(t) == c[t].done /\ c' = [c EXCEPT ![t] = Idle] /\ UNCHANGED <<s, q, sent, got>>
Post == ~q /\ q' = TRUE /\ UNCHANGED <<s, c, sent, got>>
Next == Post \/ \E t \in Threads : Wait(t) \/ TimedWait(t) \/ MessageWait(t) \/ ListWait(t) \/ SignalOne(t) \/ SignalAll(t) \/ Clear(t) \/ Effect(t) \/ Return(t)
Spec == Init /\ [][Next]_vars /\ \A t \in Threads : WF_vars(Effect(t)) /\ WF_vars(Return(t))
Few == \A k \in Events : sent[k] < Cap + 3
Bounded == \A k \in Events : s[k] <= Max(1, Cardinality(Threads))
\* nothing is received that was not sent
Sent == \A k \in Events : got[k] + s[k] <= sent[k]
\* a signal sent while a thread waits releases one: signals outstanding mean that a waiter can leave
Free == \A t \in Threads : Busy(c, t) /\ c[t].at # 0 /\ s[c[t].at] > 0 => ENABLED Effect(t)
\* all threads waiting at a signal to all are released by it
All == [][\A k \in Events : (\E t \in Threads : c[t].op = "all" /\ c[t].on = {k} /\ ~c[t].done /\ c'[t].done) => At(c', k) = {}]_vars
=============================================================================
