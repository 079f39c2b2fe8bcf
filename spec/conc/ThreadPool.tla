------------------------------ MODULE ThreadPool ------------------------------
(* neolib::thread_pool. Tasks handed to a pool are taken by its threads, highest priority first and in the order they came
   among equals, as soon as a thread is free; each is run once, by one thread of the pool, unless it was cancelled before
   it was looked at or the pool was stopped first. wait() returns when the pool is idle (nothing taken, nothing pending)
   or stopped; stop() lets the tasks that run end, drops the others and accepts no more.
   p is the pool, c the calls in progress (clients and running tasks alike). *)
EXTENDS Naturals, Sequences, FiniteSets, TLC
NoCall == [op |-> "", k |-> 0, pri |-> 0, n |-> 0, phase |-> 0, done |-> FALSE, res |-> ""]
Fresh(n) == [size |-> n, max |-> n, pend |-> <<>>, act |-> [x \in {} |-> ""], idle |-> TRUE, stopping |-> FALSE, stopped |-> FALSE,
             gone |-> 0, ended |-> {}, cancelled |-> {}, ran |-> {}, ths |-> {}]
Drop1(f, k) == [x \in DOMAIN f \ {k} |-> f[x]]
SetIdle(p) == [p EXCEPT !.idle = (DOMAIN p.act = {} /\ p.pend = <<>>)]
\* after every task of the same or a higher priority
Pos(s, pri) == 1 + Cardinality({i \in DOMAIN s : s[i].pri >= pri})
Ins(s, e) == LET i == Pos(s, e.pri) IN SubSeq(s, 1, i - 1) \o <<e>> \o SubSeq(s, i, Len(s))
Busy(p) == Cardinality(DOMAIN p.act)
Free(p) == Busy(p) < p.size
Available(p) == IF Busy(p) < p.max THEN p.max - Busy(p) ELSE 0
RECURSIVE Fill(_)
Fill(p) == IF p.pend # <<>> /\ Free(p) THEN Fill([p EXCEPT !.act = (p.pend[1].k :> "taken") @@ p.act, !.pend = Tail(@)]) ELSE p
Accept(p, k, pri) == SetIdle(Fill([p EXCEPT !.pend = Ins(@, [k |-> k, pri |-> pri])]))
Status(p, k, s) == [p EXCEPT !.act[k] = s]
\* ---- what the pool's threads do by themselves
PoolSteps(p) ==
    UNION {LET s == p.act[k] IN
           IF s = "taken"
             THEN {Status(p, k, IF k \in p.cancelled THEN "skip" ELSE "go")}
                  \cup (IF p.stopping THEN {[Status(p, k, "dropped") EXCEPT !.gone = @ + 1]} ELSE {})
           ELSE IF s \in {"skip", "out"}
             THEN {SetIdle(Fill([p EXCEPT !.act = Drop1(@, k), !.ended = @ \cup {k}]))}
           ELSE {} : k \in DOMAIN p.act}
    \cup (IF p.stopping /\ p.gone + Cardinality({k \in DOMAIN p.act : p.act[k] # "dropped"}) < p.size THEN {[p EXCEPT !.gone = @ + 1]} ELSE {})
CanBegin(p, k) == k \in DOMAIN p.act /\ p.act[k] = "go"
Begin(p, k, th) == [Status(p, k, "in") EXCEPT !.ran = @ \cup {k}, !.ths = @ \cup {th}]
CanEnd(p, k) == k \in DOMAIN p.act /\ p.act[k] = "in"
End(p, k) == Status(p, k, "out")
\* ---- calls: the moment each takes effect
Num(n) == ToString(n)
Bool(b) == IF b THEN "true" ELSE "false"
Effects(p, c, t) ==
    LET e == c[t]
        Fin(q, r) == <<q, [c EXCEPT ![t].done = TRUE, ![t].res = r]>>
        Ask(r) == {Fin(p, r)}
    IN IF e.op = "" \/ e.done THEN {} ELSE
       CASE e.op = "start" -> {IF p.stopping THEN Fin(p, "ok") ELSE Fin(Accept(p, e.k, e.pri), "ok")}
         [] e.op = "run" -> {IF p.stopping THEN Fin(p, "none") ELSE Fin(Accept(p, e.k, e.pri), "ok")}
         [] e.op = "try" -> {IF p.stopping \/ Available(p) = 0 THEN Fin(p, "false") ELSE Fin(Accept(p, e.k, e.pri), "true")}
         [] e.op = "cancel" -> {Fin([p EXCEPT !.cancelled = @ \cup {e.k}], "ok")}
         [] e.op = "reserve" -> {Fin(SetIdle(Fill([p EXCEPT !.max = e.n, !.size = IF e.n > @ THEN e.n ELSE @])), "ok")}
         [] e.op = "wait" -> IF p.stopped \/ p.idle THEN Ask("ok") ELSE {}
         [] e.op = "stop" -> (IF p.stopped THEN Ask("ok") ELSE {})
                             \cup (IF e.phase = 0 THEN {<<[p EXCEPT !.stopping = TRUE], [c EXCEPT ![t].phase = 1]>>} ELSE {})
                             \cup (IF e.phase = 1 /\ p.gone = p.size THEN {Fin([p EXCEPT !.stopped = TRUE], "ok")} ELSE {})
         [] e.op = "destroy" -> (IF e.phase = 0 /\ (p.stopped \/ p.idle) THEN {<<[p EXCEPT !.stopping = TRUE], [c EXCEPT ![t].phase = 1]>>} ELSE {})
                             \cup (IF e.phase = 1 /\ p.gone = p.size THEN {Fin(p, "ok")} ELSE {})
         [] e.op = "active" -> Ask(Num(Busy(p)))
         [] e.op = "available" -> Ask(Num(Available(p)))
         [] e.op = "total" -> Ask(Num(p.size - p.gone))
         [] e.op = "max" -> Ask(Num(p.max))
         [] e.op = "idle" -> Ask(Bool(p.idle))
         [] e.op = "busy" -> Ask(Bool(~p.idle))
         [] e.op = "stopped" -> Ask(Bool(p.stopped))
         [] e.op = "poll" -> \* a future: ready from the end of its function on, at the latest when the pool is done with the task
              (IF e.k \in p.ran /\ (e.k \in p.ended \/ (e.k \in DOMAIN p.act /\ p.act[e.k] = "out")) THEN Ask("ready") ELSE {})
              \cup (IF e.k \notin p.ran \/ e.k \notin p.ended THEN Ask("pending") ELSE {})
         [] OTHER -> {}
===============================================================================
