---------------------------- MODULE ThreadPoolMC ----------------------------
(* Every interleaving of clients' calls with the pool's threads and the tasks they run. *)
EXTENDS ThreadPool
CONSTANTS Clients, Calls, Tasks, Size, MaxSize, Ops
VARIABLES p, c, left, next, acc, pris, began
vars == <<p, c, left, next, acc, pris, began>>
Init == p = Fresh(Size) /\ c = [t \in Clients |-> NoCall] /\ left = [t \in Clients |-> Calls] /\ next = 1 /\ acc = {} /\ pris = <<>> /\ began = <<>>
Hand == {"start", "run", "try"}
Call(t) == c[t] = NoCall /\ left[t] > 0 /\ left' = [left EXCEPT ![t] = @ - 1] /\ UNCHANGED <<p, acc, began>>
           /\ \E op \in Ops :
              \/ op \in Hand /\ next <= Tasks /\ next' = next + 1 /\ \E pri \in 0..1 : c' = [c EXCEPT ![t] = [NoCall EXCEPT !.op = op, !.k = next, !.pri = pri]] /\ pris' = Append(pris, pri)
              \/ op = "cancel" /\ next > 1 /\ c' = [c EXCEPT ![t] = [NoCall EXCEPT !.op = op, !.k = 1]] /\ UNCHANGED <<next, pris>>
              \/ op = "reserve" /\ \E n \in 1..MaxSize : c' = [c EXCEPT ![t] = [NoCall EXCEPT !.op = op, !.n = n]] /\ UNCHANGED <<next, pris>>
              \/ op \notin Hand \cup {"cancel", "reserve"} /\ c' = [c EXCEPT ![t] = [NoCall EXCEPT !.op = op]] /\ UNCHANGED <<next, pris>>
Took(r) == LET n == (DOMAIN r[1].act \cup {r[1].pend[i].k : i \in DOMAIN r[1].pend}) IN acc' = acc \cup n
Pool == (\E q \in PoolSteps(p) : p' = q) /\ UNCHANGED <<c, left, next, acc, pris, began>>
Run == \E k \in DOMAIN p.act : \/ CanBegin(p, k) /\ p' = Begin(p, k, k) /\ began' = Append(began, k) /\ UNCHANGED <<c, left, next, acc, pris>>
                               \/ CanEnd(p, k) /\ p' = End(p, k) /\ UNCHANGED <<c, left, next, acc, pris, began>>
Effect(t) == \E r \in Effects(p, c, t) : p' = r[1] /\ c' = r[2] /\ Took(r) /\ UNCHANGED <<left, next, pris, began>>
Return(t) == c[t].done /\ c' = [c EXCEPT ![t] = NoCall] /\ UNCHANGED <<p, left, next, acc, pris, began>>
Next == Pool \/ Run \/ \E t \in Clients : Call(t) \/ Effect(t) \/ Return(t)
Spec == Init /\ [][Next]_vars /\ WF_vars(Pool) /\ WF_vars(Run) /\ \A t \in Clients : WF_vars(Effect(t)) /\ WF_vars(Return(t))
InProgress == {k \in DOMAIN p.act : p.act[k] \in {"in", "out", "go", "skip", "taken"}}
\* a task is in one place, is run once, and never by more threads than there are
OnePlace == /\ \A i, j \in DOMAIN p.pend : p.pend[i].k = p.pend[j].k => i = j
            /\ \A i \in DOMAIN p.pend : p.pend[i].k \notin DOMAIN p.act \cup p.ended
            /\ DOMAIN p.act \cap p.ended = {} /\ Busy(p) <= p.size
            /\ \A i, j \in DOMAIN began : began[i] = began[j] => i = j
Only == p.ran \subseteq acc /\ p.ended \subseteq acc
\* nothing accepted is lost
NotLost == \A k \in acc : k \in DOMAIN p.act \/ k \in p.ended \/ \E i \in DOMAIN p.pend : p.pend[i].k = k
\* what ended without running was cancelled
Skipped == p.ended \ p.ran \subseteq p.cancelled
\* no thread is idle while a task waits
Conserving == p.pend # <<>> => Busy(p) = p.size
\* pending tasks are in the order in which they will be taken
Sorted == \A i, j \in DOMAIN p.pend : i < j => p.pend[i].pri > p.pend[j].pri \/ (p.pend[i].pri = p.pend[j].pri)
\* idle means idle; a wait that ended saw it
Idleness == p.idle <=> (DOMAIN p.act = {} /\ p.pend = <<>>)
\* after stop nothing runs
Stopped == p.stopped => {k \in DOMAIN p.act : p.act[k] # "dropped"} = {}
\* every task gets its turn unless the pool is stopped, and whoever waits gets back
Progress == \A k \in 1..Tasks : (k \in acc) ~> (k \in p.ended \/ p.stopping)
Waits == \A t \in Clients : (c[t].op \in {"wait", "stop"}) ~> (c[t].op \notin {"wait", "stop"})
NothingAfterStop == [][p.stopped => p'.ran = p.ran]_vars
=============================================================================
