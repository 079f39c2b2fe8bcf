----------------------------- MODULE MutexAlgo -----------------------------
(* recursive_mutex step by step (flag, owner, count, wait and notify as separate steps), as a refinement of Mutex:
   the lock is taken when the flag is won or the count raised, given back when the flag is cleared. *)
EXTENDS Naturals, FiniteSets, TLC
CONSTANTS Threads, Depth
VARIABLES flag, owner, count, waiters, pc, held
vars == <<flag, owner, count, waiters, pc, held>>
None == 0
Init == flag = FALSE /\ owner = None /\ count = 0 /\ waiters = {} /\ pc = [t \in Threads |-> "out"] /\ held = [t \in Threads |-> 0]
Go(t, p) == pc' = [pc EXCEPT ![t] = p]
\* lock(): is it mine already?  the flag first, the owner after it
L0(t) == pc[t] = "out" /\ held[t] < Depth /\ Go(t, "l1") /\ UNCHANGED <<flag, owner, count, waiters, held>>
L1(t) == pc[t] = "l1" /\ Go(t, IF flag THEN "l2" ELSE "l3") /\ UNCHANGED <<flag, owner, count, waiters, held>>
L2(t) == pc[t] = "l2" /\ (IF owner = t THEN count' = count + 1 /\ held' = [held EXCEPT ![t] = @ + 1] /\ Go(t, "out") ELSE Go(t, "l3") /\ UNCHANGED <<count, held>>) /\ UNCHANGED <<flag, owner, waiters>>
L3(t) == pc[t] = "l3" /\ (IF ~flag THEN flag' = TRUE /\ Go(t, "l5") ELSE Go(t, "l4") /\ UNCHANGED flag) /\ UNCHANGED <<owner, count, waiters, held>>
L4(t) == pc[t] = "l4" /\ (IF flag THEN waiters' = waiters \cup {t} /\ Go(t, "asleep") ELSE Go(t, "l3") /\ UNCHANGED waiters) /\ UNCHANGED <<flag, owner, count, held>>
L5(t) == pc[t] = "l5" /\ owner' = t /\ Go(t, "l6") /\ UNCHANGED <<flag, count, waiters, held>>
L6(t) == pc[t] = "l6" /\ count' = count + 1 /\ held' = [held EXCEPT ![t] = @ + 1] /\ Go(t, "out") /\ UNCHANGED <<flag, owner, waiters>>
\* try_lock()
T0(t) == pc[t] = "out" /\ held[t] < Depth /\ Go(t, "t1") /\ UNCHANGED <<flag, owner, count, waiters, held>>
T1(t) == pc[t] = "t1" /\ Go(t, IF flag THEN "t2" ELSE "t3") /\ UNCHANGED <<flag, owner, count, waiters, held>>
T2(t) == pc[t] = "t2" /\ (IF owner = t THEN count' = count + 1 /\ held' = [held EXCEPT ![t] = @ + 1] /\ Go(t, "out") ELSE Go(t, "t3") /\ UNCHANGED <<count, held>>) /\ UNCHANGED <<flag, owner, waiters>>
T3(t) == pc[t] = "t3" /\ (IF ~flag THEN flag' = TRUE /\ Go(t, "l5") ELSE Go(t, "out") /\ UNCHANGED flag) /\ UNCHANGED <<owner, count, waiters, held>>
\* unlock()
U0(t) == pc[t] = "out" /\ held[t] > 0 /\ count' = count - 1 /\ held' = [held EXCEPT ![t] = @ - 1] /\ Go(t, IF count = 1 THEN "u1" ELSE "out") /\ UNCHANGED <<flag, owner, waiters>>
U1(t) == pc[t] = "u1" /\ owner' = None /\ Go(t, "u2") /\ UNCHANGED <<flag, count, waiters, held>>
U2(t) == pc[t] = "u2" /\ flag' = FALSE /\ Go(t, "u3") /\ UNCHANGED <<owner, count, waiters, held>>
U3(t) == pc[t] = "u3" /\ Go(t, "out") /\ UNCHANGED <<flag, owner, count, held>> /\ (IF waiters = {} THEN UNCHANGED waiters ELSE \E w \in waiters : waiters' = waiters \ {w})
Wake(t) == pc[t] = "asleep" /\ t \notin waiters /\ Go(t, "l3") /\ UNCHANGED <<flag, owner, count, waiters, held>>
Step(t) == L1(t) \/ L2(t) \/ L3(t) \/ L4(t) \/ L5(t) \/ L6(t) \/ T1(t) \/ T2(t) \/ T3(t) \/ U1(t) \/ U2(t) \/ U3(t) \/ Wake(t)
Next == \E t \in Threads : L0(t) \/ T0(t) \/ U0(t) \/ Step(t)
Spec == Init /\ [][Next]_vars /\ \A t \in Threads : WF_vars(Step(t)) /\ SF_vars(L3(t)) /\ WF_vars(U0(t) /\ held[t] > 0)
In(t) == held[t] > 0 \/ pc[t] \in {"l5", "l6", "u1", "u2"}
Exclusive == \A a, b \in Threads : a # b => ~(In(a) /\ In(b))
Counted == \A t \in Threads : held[t] > 0 => held[t] = count /\ owner = t /\ flag
\* no lost wake-up: threads asleep with nobody inside means that one is about to be woken
NoLostWakeup == (waiters # {} /\ ~flag) => \E t \in Threads : pc[t] \in {"u3", "l3", "l4", "l1", "l2", "t3", "t1", "t2"} \/ (pc[t] = "asleep" /\ t \notin waiters)
\* nobody sleeps for ever once the locks are given back (every thread keeps giving back what it holds)
Served == \A t \in Threads : (pc[t] = "asleep") ~> (pc[t] # "asleep")
\* refinement of the abstract lock
AbsOwner == IF \E t \in Threads : In(t) THEN CHOOSE t \in Threads : In(t) ELSE 0
AbsCount == IF AbsOwner = 0 THEN 0 ELSE IF pc[AbsOwner] \in {"l5", "l6", "u1", "u2"} THEN 1 ELSE held[AbsOwner]
A == INSTANCE Mutex
AbsM == [owner |-> AbsOwner, count |-> AbsCount]
Abstract == [][AbsM' = AbsM \/ (\E t \in Threads : (A!CanTake(AbsM, t) /\ AbsM' = A!Take(AbsM, t)) \/ (AbsM.owner = t /\ AbsM' = A!Drop(AbsM)))]_vars
=============================================================================
