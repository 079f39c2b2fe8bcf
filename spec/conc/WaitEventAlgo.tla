---------------------------- MODULE WaitEventAlgo ----------------------------
(* waitable_event over a condition variable: each member function is one step under its mutex except that a wait sleeps,
   wakes (signalled, spuriously or by time) and looks again.  Checked as a refinement of one event of WaitEvent. *)
EXTENDS Naturals, FiniteSets, TLC
CONSTANTS Threads, MaxGen
VARIABLES signals, total, gen, where, mine, timed
vars == <<signals, total, gen, where, mine, timed>>
Max(a, b) == IF a > b THEN a ELSE b
Min(a, b) == IF a < b THEN a ELSE b
Init == signals = 0 /\ total = 0 /\ gen = 0 /\ where = [t \in Threads |-> "out"] /\ mine = [t \in Threads |-> 0] /\ timed = [t \in Threads |-> FALSE]
Sleepers == {t \in Threads : where[t] = "asleep"}
\* wait(): look, sleep if there is nothing
Enter(t) == where[t] = "out" /\ mine' = [mine EXCEPT ![t] = gen] /\ timed' \in {[timed EXCEPT ![t] = b] : b \in BOOLEAN} /\ UNCHANGED gen
            /\ IF signals > 0 THEN signals' = signals - 1 /\ UNCHANGED <<where, total>> ELSE where' = [where EXCEPT ![t] = "asleep"] /\ total' = total + 1 /\ UNCHANGED signals
Spurious(t) == where[t] = "asleep" /\ where' = [where EXCEPT ![t] = "awake"] /\ UNCHANGED <<signals, total, gen, mine, timed>>
TimeOut(t) == where[t] = "asleep" /\ timed[t] /\ where' = [where EXCEPT ![t] = "late"] /\ UNCHANGED <<signals, total, gen, mine, timed>>
Look(t) == where[t] \in {"awake", "late"} /\ UNCHANGED <<gen, mine, timed>>
    /\ IF mine[t] # gen THEN where' = [where EXCEPT ![t] = "out"] /\ UNCHANGED <<signals, total>>
       ELSE IF signals > 0 THEN where' = [where EXCEPT ![t] = "out"] /\ signals' = signals - 1 /\ total' = total - 1
       ELSE IF where[t] = "late" THEN where' = [where EXCEPT ![t] = "out"] /\ total' = total - 1 /\ UNCHANGED signals
       ELSE where' = [where EXCEPT ![t] = "asleep"] /\ UNCHANGED <<signals, total>>
SignalOne == signals' = (IF signals < Max(total, 1) THEN signals + 1 ELSE signals) /\ UNCHANGED <<total, gen, mine, timed>>
             /\ (IF Sleepers = {} THEN UNCHANGED where ELSE \E t \in Sleepers : where' = [where EXCEPT ![t] = "awake"])
SignalAll == UNCHANGED <<mine, timed>> /\ IF total = 0 THEN signals' = 1 /\ UNCHANGED <<total, gen, where>>
             ELSE gen < MaxGen /\ signals' = 0 /\ total' = 0 /\ gen' = gen + 1 /\ where' = [t \in Threads |-> IF where[t] = "asleep" THEN "awake" ELSE where[t]]
Reset == signals' = Min(signals, total) /\ UNCHANGED <<total, gen, where, mine, timed>>
Next == SignalOne \/ SignalAll \/ Reset \/ \E t \in Threads : Enter(t) \/ Spurious(t) \/ TimeOut(t) \/ Look(t)
Spec == Init /\ [][Next]_vars /\ \A t \in Threads : WF_vars(Look(t))
Waiting == {t \in Threads : where[t] # "out" /\ mine[t] = gen}      \* not released
Counted == total = Cardinality(Waiting) /\ signals <= Max(1, total)
\* no lost wake-up: as many threads awake as there are signals they can take; the released are never asleep
Awake == Cardinality({t \in Waiting : where[t] # "asleep"}) >= Min(signals, total)
Released == \A t \in Threads : where[t] = "asleep" => mine[t] = gen
\* refinement of WaitEvent's steps of one event with s = signals and the waiting threads
W == Waiting
Abstract == [][\/ signals' = signals /\ W' = W
               \/ \E t \in Threads : (W' = W \cup {t} /\ signals' = signals)                                \* Enter
               \/ (signals > 0 /\ signals' = signals - 1 /\ \E t \in Threads : W' = W \ {t})                 \* TakeSignal
               \/ \E t \in W : (timed[t] /\ signals = 0 /\ W' = W \ {t} /\ signals' = 0)                     \* LeaveEmpty
               \/ (signals' = Min(signals + 1, Max(Cardinality(W), 1)) /\ W' = W)                            \* one
               \/ (W # {} /\ W' = {} /\ signals' \in {0, Min(signals, 1)}) \/ (W = {} /\ signals' = 1 /\ W' = W) \* all
               \/ (signals' = Min(signals, Cardinality(W)) /\ W' = W)]_vars                                  \* clear
\* a waiting thread leaves, or the signal has been taken by another or belongs to a later moment
Leaves == \A t \in Threads : (where[t] # "out" /\ mine[t] # gen) ~> (where[t] = "out")
=============================================================================
