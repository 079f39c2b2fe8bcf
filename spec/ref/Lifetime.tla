------------------------------ MODULE Lifetime ------------------------------
(* End of life of objects: creating -> alive -> destroying -> destroyed, the two notifications that go with it, and the
   observers (flags) that outlive the object.  One record per object:
     k  0: no notifications (lifetime<>), 1: notifies (object<>, async_task)      st stage 0..3
     ing, ed: notifications sent          gone: the object itself no longer exists  dep: announcements in progress *)
EXTENDS Integers, FiniteSets
CONSTANT Objects
Creating == 0  Alive == 1  Destroying == 2  Destroyed == 3
Stages == Creating..Destroyed
None == [k |-> -1, st |-> 0, ing |-> 0, ed |-> 0, gone |-> FALSE, dep |-> 0]
Born(k, s) == [None EXCEPT !.k = k, !.st = s]
Exists(r) == r.k >= 0 /\ ~r.gone

\* set_alive: only something still being created becomes alive
CanSetAlive(r) == r.st = Creating
SetAlive(r) == [r EXCEPT !.st = Alive]

\* an announcement begins: nothing is visible yet
Begin(r) == [r EXCEPT !.dep = @ + 1]
\* "is being destroyed" is sent, the observers then seeing stage s
NoteIng(r, s) == [r EXCEPT !.st = s, !.ing = @ + 1]
CanNoteIng(r, s) == r.k = 1 /\ r.dep > 0 /\ r.ing = 0 /\ r.ed = 0 /\ s >= r.st /\ s <= Destroying
\* "has been destroyed" is sent
NoteEd(r, s) == [r EXCEPT !.st = s, !.ed = @ + 1]
CanNoteEd(r, s) == r.k = 1 /\ r.dep > 0 /\ r.ing = 1 /\ r.ed = 0 /\ s >= r.st /\ s >= Destroying
\* the announcement returns: the stage reached by an outermost one is fixed, an inner one only moves forward
EndOk(r, what, s) ==
    /\ r.dep > 0 /\ s >= r.st
    /\ (r.k = 1 => (s >= Destroying => r.ing = 1) /\ (s = Destroyed => r.ed = 1))
    /\ (what = "ing" => s # Destroyed \/ r.st = Destroyed)
    /\ (r.dep = 1 =>
         LET sent == r.k = 0 \/ (r.ing = 1) IN
         IF what = "ing" THEN s >= Destroying /\ sent /\ (s = Destroyed => r.k = 0 \/ r.ed = 1)
         ELSE s = Destroyed /\ sent /\ (r.k = 0 \/ r.ed = 1))
End(r, what, s) == [r EXCEPT !.st = s, !.dep = @ - 1, !.gone = (what = "del")]

Inv(r) == /\ r.ing \in 0..1 /\ r.ed \in 0..1 /\ r.ed <= r.ing
          /\ (r.st = Destroyed /\ r.dep = 0 /\ r.k = 1 => r.ing = 1 /\ r.ed = 1)
          /\ (r.gone => r.st = Destroyed)
          /\ (r.ing = 1 /\ r.dep = 0 => r.st >= Destroying)
=============================================================================
