------------------------------- MODULE Events -------------------------------
(* Events, subscriptions (slots), sinks and per-thread callback queues.
     ev[e] : [up, type, subs]   type 0 sync, 1 sync no-duplicates, 2 async, 3 async no-duplicates; subs: slots in order
     sl[s] : [ev, em, sta, thr] em: called in the emitting thread, sta: never queued twice, thr: subscribing thread
     hd    : slots whose handle is held          sk[k] : the slots a sink holds
     fr[t] : what thread t is executing, innermost last: triggers and queue executions
     q[t]  : callbacks pending on thread t: m in order, s (no duplicates) in no particular order *)
EXTENDS Integers, Sequences, FiniteSets
CONSTANTS Evs, Slots, Sinks, Threads
Range(x) == {x[i] : i \in 1..Len(x)}
NoEv == [up |-> FALSE, type |-> 0, subs |-> <<>>]
NoSlot == [ev |-> 0, em |-> FALSE, sta |-> FALSE, thr |-> 0]
Start == [ev |-> [e \in Evs |-> NoEv], sl |-> [s \in Slots |-> NoSlot], hd |-> {}, sk |-> [k \in Sinks |-> <<>>],
          fr |-> [t \in Threads |-> <<>>], q |-> [t \in Threads |-> [m |-> <<>>, s |-> {}]]]

Subscribed(st, s) == st.sl[s].ev # 0 /\ st.ev[st.sl[s].ev].up /\ s \in Range(st.ev[st.sl[s].ev].subs)
Referenced(st, s) == s \in st.hd \/ (\E k \in Sinks : s \in Range(st.sk[k])) \/ Subscribed(st, s)
InUse(st, s) == \E t \in Threads : \E i \in 1..Len(st.fr[t]) : s \in st.fr[t][i].snap \/ st.fr[t][i].cur = s
EventUp(st, s) == st.ev[st.sl[s].ev].up


(* events and subscriptions *)
NewEv(st, e, type) == [st EXCEPT !.ev[e] = [up |-> TRUE, type |-> type, subs |-> <<>>]]
DelEv(st, e) == [st EXCEPT !.ev[e].up = FALSE, !.ev[e].subs = <<>>]
AssignEv(st, e, f) == [st EXCEPT !.ev[e].type = st.ev[f].type, !.ev[e].subs = <<>>]
SetType(st, e, type) == [st EXCEPT !.ev[e].type = type]
Sub(st, s, e, prio, em, sta, t) ==
    [st EXCEPT !.sl[s] = [ev |-> e, em |-> em, sta |-> sta, thr |-> t],
               !.ev[e].subs = IF prio THEN <<s>> \o @ ELSE Append(@, s)]
\* unsubscribe every slot of S
Unsub(st, S) == [st EXCEPT !.ev = [e \in Evs |-> [st.ev[e] EXCEPT !.subs = SelectSeq(@, LAMBDA x : x \notin S)]]]
Hold(st, s) == [st EXCEPT !.hd = @ \cup {s}]
Drop(st, s) == [st EXCEPT !.hd = @ \ {s}]
SinkClear(st, k) == [Unsub(st, Range(st.sk[k])) EXCEPT !.sk[k] = <<>>]
SinkAdd(st, k, s) == [st EXCEPT !.sk[k] = Append(@, s)]
SinkSet(st, k, s) == SinkAdd(SinkClear(st, k), k, s)
SinkCopy(st, k, f) == IF k = f THEN st ELSE [SinkClear(st, k) EXCEPT !.sk[k] = st.sk[f]]


(* queueing *)
Target(st, t, s) == IF st.sl[s].em THEN t ELSE st.sl[s].thr
Enqueue(st, t, s, a, noDup) ==
    LET d == Target(st, t, s) IN
    IF noDup \/ st.sl[s].sta
    THEN [st EXCEPT !.q[d].s = {x \in @ : x.s # s} \cup {[s |-> s, a |-> a]}]
    ELSE [st EXCEPT !.q[d].m = Append(@, [s |-> s, a |-> a])]
RECURSIVE EnqueueAll(_, _, _, _, _)
EnqueueAll(st, t, S, a, noDup) ==
    IF S = <<>> THEN st ELSE EnqueueAll(Enqueue(st, t, Head(S), a, noDup), t, Tail(S), a, noDup)
\* a pending callback has to run while its subscription stands, and must not once its event or its slot is destroyed
MustRun(st, x) == Subscribed(st, x.s)
MayRun(st, x) == EventUp(st, x.s) /\ (Referenced(st, x.s) \/ InUse(st, x.s))


(* triggering *)
Top(st, t) == st.fr[t][Len(st.fr[t])]
Busy(st, t) == st.fr[t] # <<>>
SetTop(st, t, f) == [st EXCEPT !.fr[t][Len(st.fr[t])] = f]
Push(st, t, f) == [st EXCEPT !.fr[t] = Append(@, f)]
Pop(st, t) == [st EXCEPT !.fr[t] = SubSeq(@, 1, Len(@) - 1)]
IsAsync(st, e, how) == how = "async" \/ (how = "auto" /\ st.ev[e].type >= 2)
AsyncTrigger(st, t, e, a) == EnqueueAll(st, t, st.ev[e].subs, a, st.ev[e].type = 3)
BeginTrigger(st, t, e, a) ==
    Push(st, t, [k |-> "trig", ev |-> e, a |-> a, rest |-> st.ev[e].subs, snap |-> Range(st.ev[e].subs), acc |-> FALSE,
                 cur |-> 0, m |-> <<>>, s |-> {}, some |-> FALSE])
Accept(st, t, e) ==
    LET I == {i \in 1..Len(st.fr[t]) : st.fr[t][i].k = "trig" /\ st.fr[t][i].ev = e} IN
    IF I = {} THEN st ELSE LET i == CHOOSE x \in I : \A y \in I : y <= x IN [st EXCEPT !.fr[t][i].acc = TRUE]
Foreign(st, t, s) == ~st.sl[s].em /\ st.sl[s].thr # t
\* the slots of S that are not called directly: another thread's are queued there, the rest must have been unsubscribed
Passed(st, t, S) == \A i \in 1..Len(S) : Foreign(st, t, S[i]) \/ ~Subscribed(st, S[i])
PassOver(st, t, S, a, noDup) == EnqueueAll(st, t, SelectSeq(S, LAMBDA s : Foreign(st, t, s)), a, noDup)
IndexOf(x, s) == CHOOSE i \in 1..Len(x) : x[i] = s
CanCallTrig(st, t, s, a) ==
    LET f == Top(st, t) IN
    /\ f.k = "trig" /\ f.cur = 0 /\ ~f.acc /\ st.ev[f.ev].up /\ a = f.a
    /\ s \in Range(f.rest) /\ ~Foreign(st, t, s) /\ Passed(st, t, SubSeq(f.rest, 1, IndexOf(f.rest, s) - 1))
CallTrig(st, t, s) ==
    LET f == Top(st, t) i == IndexOf(f.rest, s) n == st.ev[f.ev].type = 1 IN
    SetTop(PassOver(st, t, SubSeq(f.rest, 1, i - 1), f.a, n), t, [f EXCEPT !.cur = s, !.rest = SubSeq(f.rest, i + 1, Len(f.rest))])
BeginPump(st, t) ==
    Push([st EXCEPT !.q[t] = [m |-> <<>>, s |-> {}]], t,
         [k |-> "pump", ev |-> 0, a |-> 0, rest |-> <<>>, snap |-> {}, acc |-> FALSE, cur |-> 0,
          m |-> st.q[t].m, s |-> st.q[t].s, some |-> FALSE])
PumpAt(f, s, a) == {i \in 1..Len(f.m) : f.m[i].s = s /\ f.m[i].a = a}
CanCallPump(st, t, s, a) ==
    LET f == Top(st, t) x == [s |-> s, a |-> a] IN
    /\ f.k = "pump" /\ f.cur = 0 /\ st.sl[s].ev # 0 /\ MayRun(st, x)
    /\ \/ x \in f.s
       \/ \E i \in PumpAt(f, s, a) : \A j \in 1..(i - 1) : ~MustRun(st, f.m[j])
CallPump(st, t, s, a) ==
    LET f == Top(st, t) x == [s |-> s, a |-> a] IN
    IF x \in f.s THEN SetTop(st, t, [f EXCEPT !.s = @ \ {x}, !.cur = s, !.some = TRUE])
    ELSE LET i == CHOOSE y \in PumpAt(f, s, a) : TRUE IN
         SetTop(st, t, [f EXCEPT !.m = SubSeq(@, i + 1, Len(@)), !.cur = s, !.some = TRUE])
CanCall(st, t, s, a) == Busy(st, t) /\ (CanCallTrig(st, t, s, a) \/ CanCallPump(st, t, s, a))
Call(st, t, s, a) == IF Top(st, t).k = "trig" THEN CallTrig(st, t, s) ELSE CallPump(st, t, s, a)
Return(st, t) == SetTop(st, t, [Top(st, t) EXCEPT !.cur = 0])
\* the trigger returns: 1 nobody accepted, 2 accepted
Result(st, t) == LET f == Top(st, t) IN IF ~st.ev[f.ev].up THEN 1 ELSE IF f.acc THEN 2 ELSE 1
CanEndTrigger(st, t) == LET f == Top(st, t) IN
    f.k = "trig" /\ f.cur = 0 /\ (~st.ev[f.ev].up \/ f.acc \/ Passed(st, t, f.rest))
EndTrigger(st, t) == LET f == Top(st, t) IN
    IF ~st.ev[f.ev].up \/ f.acc THEN Pop(st, t)
    ELSE Pop(PassOver(st, t, f.rest, f.a, st.ev[f.ev].type = 1), t)
CanEndPump(st, t) == LET f == Top(st, t) IN
    f.k = "pump" /\ f.cur = 0 /\ (\A i \in 1..Len(f.m) : ~MustRun(st, f.m[i])) /\ (\A x \in f.s : ~MustRun(st, x))
\* a handler threw: what has not been executed stays pending, before anything newer
ThrowPump(st, t) == LET f == Top(st, t) IN
    Pop([st EXCEPT !.q[t] = [m |-> f.m \o @.m, s |-> @.s \cup {x \in f.s : \A y \in st.q[t].s : y.s # x.s}]], t)
=============================================================================
