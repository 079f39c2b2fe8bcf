------------------------------- MODULE EcsMC -------------------------------
(* The book-keeping the library implements Ecs with: numbers which are free to be given out again, a   *)
(* counter for new ones, a mark on entities which are to be destroyed and a queue of them which keeps  *)
(* entries of entities destroyed in the meantime, and the same for handles.  It implements Ecs.        *)
EXTENDS Integers, Sequences, FiniteSets
CONSTANTS MaxId, MaxQueue, MaxHandle
VARIABLES w, next, free, mark, queue, hnext, hfree
X == INSTANCE Ecs
vars == <<w, next, free, mark, queue, hnext, hfree>>
Init == \E pop, paused \in BOOLEAN : w = X!Fresh(pop, paused) /\ next = 0 /\ free = <<>> /\ mark = {} /\ queue = <<>> /\ hnext = 0 /\ hfree = <<>>
Push(f, S) == IF S = {} THEN f ELSE Append(f, CHOOSE x \in S : TRUE)
NextId(f, n) == IF f # <<>> THEN f[Len(f)] ELSE n + 1
Pop(f) == IF f # <<>> THEN SubSeq(f, 1, Len(f) - 1) ELSE f
Last == queue[Len(queue)]
Create(a, how) == LET id == NextId(free, next) IN id <= MaxId /\ w' = X!Create(w, id, a, 1, how) /\ free' = Pop(free) /\ next' = (IF free # <<>> THEN next ELSE next + 1) /\ UNCHANGED <<mark, queue, hnext, hfree>>
Destroyed(e, notify) == w' = X!Gone(w, {e}, IF notify THEN {e} ELSE {}) /\ free' = Append(free, e) /\ mark' = mark \ {e} /\ hfree' = Push(hfree, X!Values(w, {e})) /\ UNCHANGED <<next, hnext>>
Destroy(e) == e \in DOMAIN w.live /\ Destroyed(e, TRUE) /\ UNCHANGED queue
Doom(e) == /\ w.pop /\ e \in DOMAIN w.live /\ w' = X!Doom(w, e, TRUE) /\ Len(queue) < MaxQueue
           /\ (IF e \in mark THEN UNCHANGED <<mark, queue>> ELSE mark' = mark \cup {e} /\ queue' = Append(queue, e)) /\ UNCHANGED <<next, free, hnext, hfree>>
\* the deferred destructions one by one, the newest first, leaving out those of entities which are no longer marked
Commit == /\ queue # <<>> /\ queue' = SubSeq(queue, 1, Len(queue) - 1)
          /\ IF Last \in mark THEN Destroyed(Last, w.doomed[Last]) ELSE UNCHANGED <<w, next, free, mark, hnext, hfree>>
Handle(e) == LET h == NextId(hfree, hnext) IN h <= MaxHandle /\ e \in DOMAIN w.live /\ e \notin DOMAIN w.comps["d"] /\ h \notin DOMAIN w.handles
          /\ w' = X!Populate([w EXCEPT !.handles = X!With(@, h, 1)], e, "d", h) /\ hfree' = Pop(hfree) /\ hnext' = (IF hfree # <<>> THEN hnext ELSE hnext + 1) /\ UNCHANGED <<next, free, mark, queue>>
Own(s, e) == e \in DOMAIN w.live /\ w.objs[s] <= 0 /\ w.objs[3 - s] # e /\ w' = [w EXCEPT !.objs[s] = e] /\ UNCHANGED <<next, free, mark, queue, hnext, hfree>>
Systems == UNCHANGED <<next, free, mark, queue, hnext, hfree>> /\ w' \in {X!PauseAll(w), X!ResumeAll(w), X!Start(w, 2)}
Next == (\E a \in {0, 1}, how \in {0, 4} : Create(a, how)) \/ (\E e \in 1..MaxId : Destroy(e) \/ Doom(e) \/ Handle(e) \/ Own(1, e) \/ Own(2, e)) \/ Commit \/ Systems
Spec == Init /\ [][Next]_vars
Distinct(q) == \A i, j \in 1..Len(q) : i # j => q[i] # q[j]
Range(q) == {q[i] : i \in 1..Len(q)}
Implements ==
    /\ X!Wf(w)
    /\ Distinct(free) /\ Range(free) \cup DOMAIN w.live = 1..next /\ Range(free) \cap DOMAIN w.live = {}
    /\ Distinct(hfree) /\ Range(hfree) \cup DOMAIN w.handles = 1..hnext /\ Range(hfree) \cap DOMAIN w.handles = {}
    /\ mark = DOMAIN w.doomed /\ mark \subseteq Range(queue)
\* creating or destroying an entity leaves every other entity's identity and records as they were
OthersKept == \A e \in DOMAIN w.live \cap DOMAIN w'.live : w'.live[e] = w.live[e] /\ \A c \in {"p", "h", "r"} : e \in DOMAIN w.comps[c] => e \in DOMAIN w'.comps[c] /\ w'.comps[c][e] = w.comps[c][e]
Kept == [][OthersKept]_w
=============================================================================
