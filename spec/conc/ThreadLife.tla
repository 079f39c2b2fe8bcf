----------------------------- MODULE ThreadLife -----------------------------
(* The life of a thread object: its reported state, st, and where its procedure really is, life.  A call by a thread
   takes effect in steps between call and return; a query reports a state the object had in between. *)
EXTENDS Naturals, FiniteSets, Sequences
Fresh(attach, fail) == [st |-> "ReadyToStart", life |-> "none", attach |-> attach, fail |-> fail, sig |-> FALSE, threw |-> FALSE]
Over == {"Finished", "Aborted", "Cancelled", "Error"}
Idle == [op |-> "none", phase |-> 0, w |-> FALSE, done |-> FALSE, res |-> "", seen |-> {}]
Queries == {"state", "started", "running", "finished", "aborted", "cancelled", "error?", "in"}
Finish(c, res) == [c EXCEPT !.done = TRUE, !.res = res]
Busy(c, t) == c[t].op # "none" /\ ~c[t].done
Bool(b) == IF b THEN "true" ELSE "false"
\* what a query reports in state st; inThread: the caller is the object's own thread
Report(op, o, st, inThread) ==
    CASE op = "state" -> st
      [] op = "started" -> Bool(st # "ReadyToStart")
      [] op = "running" -> Bool(st = "Started")
      [] op = "finished" -> Bool(st \in Over)
      [] op = "aborted" -> Bool(st = "Aborted")
      [] op = "cancelled" -> Bool(st = "Cancelled")
      [] op = "error?" -> Bool(st = "Error")
      [] op = "in" -> IF st = "ReadyToStart" /\ ~o.attach THEN "not_started" ELSE Bool(inThread)
\* every query in progress sees the new state
See(o, c) == [t \in DOMAIN c |-> IF c[t].op \in Queries THEN [c[t] EXCEPT !.seen = @ \cup {o.st}] ELSE c[t]]
To(o, c) == {<<o, See(o, c)>>}
\* the procedure's own moves
Procedure(o, c) ==
    IF o.attach THEN {}
    ELSE CASE o.life = "spawned" /\ o.st = "Starting" -> To([o EXCEPT !.st = "Started", !.life = "entered"], c)
           [] o.life = "spawned" /\ o.st # "Starting" -> To([o EXCEPT !.st = "Finished", !.life = "gone"], c)
           [] o.life = "out" -> To([o EXCEPT !.st = IF @ \in {"Started", "Aborted"} THEN "Finished" ELSE @, !.life = "gone"], c)
           [] OTHER -> {}
End(o, c, t, res) == {<<o, [c EXCEPT ![t] = Finish(@, res)]>>}
Phase(c, t, n) == [c EXCEPT ![t].phase = n]
Gone(o) == o.life = "gone"
Start(o, c, t) ==
    IF c[t].phase = 0 THEN
         IF o.st # "ReadyToStart" THEN End(o, c, t, "already")
         ELSE IF o.fail THEN To([o EXCEPT !.st = "Starting"], Phase(c, t, 1))
         ELSE IF o.attach THEN To([o EXCEPT !.st = "Starting"], Phase(c, t, 2))
         ELSE To([o EXCEPT !.st = "Starting", !.life = "spawned"], [c EXCEPT ![t] = Finish(@, "ok")])
    ELSE IF c[t].phase = 1 THEN To([o EXCEPT !.st = "Error"], [c EXCEPT ![t] = Finish(@, "error")])
    \* an attached thread runs the procedure inside start
    ELSE IF c[t].phase = 2 THEN To([o EXCEPT !.st = "Started", !.life = "entered"], Phase(c, t, 3))
    ELSE IF o.life = "out" /\ ~o.threw THEN End([o EXCEPT !.life = "gone"], c, t, "ok")
    ELSE IF o.life = "out" THEN To([o EXCEPT !.life = "gone", !.st = "Error"], [c EXCEPT ![t] = Finish(@, "error")])
    ELSE {}
\* abort, or cancel from outside
Abort(o, c, t, w) ==
    IF c[t].phase = 0 THEN
         IF o.st \in Over THEN End(o, c, t, "ok")
         ELSE IF o.st = "ReadyToStart" THEN End(o, c, t, "not_started")
         ELSE To([o EXCEPT !.st = "Aborted"], IF w THEN Phase(c, t, 1) ELSE [c EXCEPT ![t] = Finish(@, "ok")])
    ELSE IF Gone(o) THEN End(o, c, t, "ok") ELSE {}
Cancel(o, c, t) == IF o.st \in Over THEN End(o, c, t, "ok") ELSE To([o EXCEPT !.st = "Cancelled"], [c EXCEPT ![t] = Finish(@, "cancel")])
NoObject(o) == o.st = "Error" /\ ~o.attach
Wait(o, c, t, q) ==
    IF o.st = "ReadyToStart" THEN End(o, c, t, "not_started")
    ELSE LET op == c[t].op IN
         (IF Gone(o) THEN End(o, c, t, IF op = "wait" THEN "ok" ELSE "waitable") ELSE {})
         \cup (IF op = "wait" /\ NoObject(o) THEN End(o, c, t, "no_object") ELSE {})
         \cup (IF op \in {"waitlist", "msglist"} /\ o.sig THEN End([o EXCEPT !.sig = FALSE], c, t, "event") ELSE {})
         \cup (IF op \in {"msgwait", "msglist"} /\ q THEN End(o, c, t, "message") ELSE {})
Destroy(o, c, t) ==
    IF c[t].phase = 0 THEN IF o.attach \/ o.life \in {"none", "gone"} THEN End(o, c, t, "ok")
                           ELSE To([o EXCEPT !.st = IF @ \in Over THEN @ ELSE "Aborted"], Phase(c, t, 1))
    ELSE IF Gone(o) THEN End(o, c, t, "ok") ELSE {}
\* own: t runs in the object's own thread
Effects(o, c, t, own, q) ==
    IF ~Busy(c, t) THEN {}
    ELSE LET op == c[t].op IN
         CASE op \in Queries -> {}
           [] op = "start" -> IF own /\ ~o.attach THEN End(o, c, t, "already") ELSE Start(o, c, t)
           [] op \in {"abort", "cancel"} -> IF own THEN Cancel(o, c, t) ELSE Abort(o, c, t, op = "cancel" \/ c[t].w)
           [] op \in {"wait", "waitlist", "msgwait", "msglist"} -> IF own THEN End(o, c, t, "self") ELSE Wait(o, c, t, q)
           [] op \in {"block", "unblock"} -> IF own THEN End(o, c, t, IF o.st = "Aborted" THEN "cancel" ELSE "ok")
                                             ELSE End(o, c, t, IF o.st = "ReadyToStart" THEN "not_started" ELSE "not_in")
           [] op = "signal" -> End([o EXCEPT !.sig = TRUE], c, t, "ok")
           [] op = "destroy" -> Destroy(o, c, t)
Answers(o, c, t, own) == IF c[t].op \in Queries THEN {Report(c[t].op, o, st, own) : st \in c[t].seen} ELSE IF c[t].done THEN {c[t].res} ELSE {}
\* the procedure runs: begin and end as the procedure itself sees them
CanBegin(o) == o.life = "entered"
Begin(o) == [o EXCEPT !.life = "in"]
CanEnd(o) == o.life = "in"
Ends(o) == [o EXCEPT !.life = "out"]
=============================================================================
