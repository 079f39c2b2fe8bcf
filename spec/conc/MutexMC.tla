------------------------------ MODULE MutexMC ------------------------------
(* Two locks, threads that take, try, nest and release them in any way that keeps the order of locks. *)
EXTENDS Mutex, TLC, FiniteSets
CONSTANTS Threads, Locks, Depth
VARIABLES m, c
vars == <<m, c>>
Init == m = [k \in Locks |-> Free] /\ c = [t \in Threads |-> Idle]
Mine(t) == {k \in Locks : m[k].owner = t}
Call(t, op, on) == c[t] = Idle /\ c' = [c EXCEPT ![t] = Called(op, on)] /\ UNCHANGED m
DoLock(t) == \E k \in Locks : (\A j \in Mine(t) : j <= k) /\ (k \in Mine(t) => m[k].count < Depth) /\ Call(t, "lock", {k})
DoTry(t) == \E k \in Locks : (k \in Mine(t) => m[k].count < Depth) /\ Call(t, "try", {k})
DoUnlock(t) == \E k \in Mine(t) : Call(t, "unlock", {k})
DoLockAll(t) == Mine(t) = {} /\ Call(t, "lockall", Locks)
DoUnlockAll(t) == Mine(t) = Locks /\ Call(t, "unlockall", Locks)
Effect(t) == \E r \in Effects(m, c, t) : m' = r[1] /\ c' = [c EXCEPT ![t] = r[2]]
Return(t) == c[t].done /\ c' = [c EXCEPT ![t] = Idle] /\ UNCHANGED m
Next == \E t \in Threads : DoLock(t) \/ DoTry(t) \/ DoUnlock(t) \/ DoLockAll(t) \/ DoUnlockAll(t) \/ Effect(t) \/ Return(t)
Fair == \A t \in Threads : WF_vars(Effect(t)) /\ WF_vars(Return(t)) /\ WF_vars(DoUnlock(t))
Spec == Init /\ [][Next]_vars
FairSpec == Spec /\ Fair
Exclusive == \A k \in Locks : (m[k].owner = NoOne) = (m[k].count = 0)
Held == \A t \in Threads : c[t].op = "lock" /\ c[t].done => \A k \in c[t].on : m[k].owner = t
\* a thread waits for a lock only while another thread owns it, and nobody waits for ever in a circle
NoCircle == (\E t \in Threads : c[t].op \in {"lock", "lockall"} /\ ~c[t].done) => \E t \in Threads : ENABLED Effect(t) \/ ENABLED Return(t) \/ c[t] = Idle
\* only the owner's calls change who owns a lock
OwnerOnly == [][\A k \in Locks : m[k].owner # NoOne /\ m'[k].owner # m[k].owner => m'[k].owner = NoOne]_vars
=============================================================================
