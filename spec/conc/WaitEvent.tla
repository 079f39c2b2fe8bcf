------------------------------ MODULE WaitEvent ------------------------------
(* Waitable events.  An event k has the threads waiting at it, w[k], and the signals sent one at a time that nobody has
   taken yet, s[k]: never more than there are waiting threads to take them, or one when nobody waits.  Signalling all
   releases every thread waiting at that moment.  A call takes effect in steps between call and return; a wait with a
   time limit may give up only when nothing is there to be taken, and not before its time. *)
EXTENDS Integers, FiniteSets
Max(a, b) == IF a > b THEN a ELSE b
Min(a, b) == IF a < b THEN a ELSE b
Idle == [op |-> "none", on |-> {}, ms |-> 0, timed |-> FALSE, q |-> FALSE, w |-> FALSE, at |-> 0, done |-> FALSE, res |-> "none", k |-> 0, since |-> 0]
Finish(c, res, k) == [c EXCEPT !.done = TRUE, !.res = res, !.k = k, !.at = 0]
Busy(c, t) == c[t].op # "none" /\ ~c[t].done
Waits(o) == o \in {"wait", "list"}
\* a wait that looks at its events again and again rather than sleeping at one of them
Polls(x) == x.op = "list" \/ x.q
At(c, k) == {t \in DOMAIN c : c[t].at = k}
\* pollers that may be looking at k just now
Looking(c, k) == {t \in DOMAIN c : Busy(c, t) /\ Waits(c[t].op) /\ Polls(c[t]) /\ k \in c[t].on}
\* what the call of thread t may do next: set of <<signals, calls>>; it happens no earlier than `from` and no later than `to`
Enter(s, c, t, from) == IF Polls(c[t]) \/ c[t].at # 0 THEN {} ELSE {<<s, [c EXCEPT ![t].at = k, ![t].since = IF c[t].timed THEN from ELSE @]>> : k \in c[t].on}
TakeSignal(s, c, t) == {<<[s EXCEPT ![k] = @ - 1], [c EXCEPT ![t] = Finish(@, "event", k)]>> : k \in {j \in (IF Polls(c[t]) THEN c[t].on ELSE {c[t].at} \ {0}) : s[j] > 0}}
LeaveEmpty(s, c, t, to) == IF c[t].at # 0 /\ s[c[t].at] = 0 /\ c[t].timed /\ to - c[t].since >= c[t].ms THEN {<<s, [c EXCEPT ![t] = Finish(@, "none", 0)]>>} ELSE {}
GiveUp(s, c, t, q, w, to) ==
    IF ~Polls(c[t]) THEN {}
    ELSE (IF c[t].timed /\ to - c[t].since >= c[t].ms THEN {<<s, [c EXCEPT ![t] = Finish(@, "none", 0)]>>} ELSE {})
         \cup (IF c[t].q /\ q THEN {<<s, [c EXCEPT ![t] = Finish(@, IF c[t].op = "list" THEN "message" ELSE "none", 0)]>>} ELSE {})
         \cup (IF c[t].w /\ w THEN {<<s, [c EXCEPT ![t] = Finish(@, "waitable", 0)]>>} ELSE {})
Released(c, k, z) == [u \in DOMAIN c |-> IF u \in z THEN Finish(c[u], "event", k) ELSE c[u]]
Signal(s, c, t) ==
    LET k == CHOOSE x \in c[t].on : TRUE
        fin == Finish(c[t], "event", 0)
        here == {At(c, k) \cup p : p \in SUBSET Looking(c, k)}
        counts == {Cardinality(h) : h \in here} IN
    CASE c[t].op = "one" -> {<<[s EXCEPT ![k] = Min(@ + 1, Max(n, 1))], [c EXCEPT ![t] = fin]>> : n \in counts}
      [] c[t].op = "all" -> UNION {IF z = {} THEN {<<[s EXCEPT ![k] = 1], [c EXCEPT ![t] = fin]>>}
                                   ELSE {<<[s EXCEPT ![k] = x], [Released(c, k, z) EXCEPT ![t] = fin]>> : x \in {0, Min(s[k], 1)}} : z \in here}
      [] c[t].op = "clear" -> {<<[s EXCEPT ![k] = Min(@, n)], [c EXCEPT ![t] = fin]>> : n \in counts}
Effects(s, c, t, q, w, from, to) ==
    IF ~Busy(c, t) THEN {}
    ELSE IF Waits(c[t].op) THEN TakeSignal(s, c, t) \cup Enter(s, c, t, from) \cup LeaveEmpty(s, c, t, to) \cup GiveUp(s, c, t, q, w, to)
    ELSE Signal(s, c, t)
\* no thread can move: every unfinished call is a wait without a limit at an event with nothing to take
Asleep(s, c) == \A t \in DOMAIN c : Busy(c, t) => c[t].op = "wait" /\ ~Polls(c[t]) /\ ~c[t].timed /\ c[t].at # 0 /\ s[c[t].at] = 0
=============================================================================
