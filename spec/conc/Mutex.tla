------------------------------- MODULE Mutex -------------------------------
(* Recursive locks and the calls in progress on them: each call takes effect at one moment between call and return.
   A call names the locks it is about; taking several is one step (whatever is taken and given back on the way to
   it can be seen by another thread's try), giving several back is one step per lock. *)
EXTENDS Integers
NoOne == 0
Free == [owner |-> NoOne, count |-> 0]
CanTake(m, t) == m.owner \in {NoOne, t}
Take(m, t) == [owner |-> t, count |-> m.count + 1]
Drop(m) == IF m.count = 1 THEN Free ELSE [m EXCEPT !.count = @ - 1]
Idle == [op |-> "none", on |-> {}, done |-> FALSE, res |-> FALSE]
Called(op, on) == [op |-> op, on |-> on, done |-> FALSE, res |-> FALSE]
Done(c, res) == [c EXCEPT !.done = TRUE, !.res = res]
TakeAll(m, on, t) == [k \in DOMAIN m |-> IF k \in on THEN Take(m[k], t) ELSE m[k]]
\* a lock of another thread's unfinished "lockall" may be held by it for a moment
Passing(c, t, k) == \E u \in DOMAIN c : u # t /\ c[u].op = "lockall" /\ ~c[u].done /\ k \in c[u].on
\* effects of the call of thread t: the set of possible <<locks, call>> pairs
Effects(m, c, t) ==
    IF c[t].op = "none" \/ c[t].done THEN {}
    ELSE LET on == c[t].on can == \A k \in on : CanTake(m[k], t) IN
         CASE c[t].op \in {"lock", "lockall"} -> IF can THEN {<<TakeAll(m, on, t), Done(c[t], TRUE)>>} ELSE {}
           [] c[t].op = "try" -> (IF can THEN {<<TakeAll(m, on, t), Done(c[t], TRUE)>>} ELSE {<<m, Done(c[t], FALSE)>>})
                                 \cup (IF \E k \in on : Passing(c, t, k) THEN {<<m, Done(c[t], FALSE)>>} ELSE {})
           [] OTHER -> {<<[m EXCEPT ![k] = Drop(@)], IF on = {k} THEN Done(c[t], TRUE) ELSE [c[t] EXCEPT !.on = @ \ {k}]>> : k \in {x \in on : m[x].owner = t}}
=============================================================================
