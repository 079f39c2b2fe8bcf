--------------------------- MODULE LifetimeTrace ---------------------------
EXTENDS TraceBase, FiniteSets
MaxO == 24
VARIABLES st, fl       \* objects; flags: flag number -> object (0: none)
L == INSTANCE Lifetime WITH Objects <- 1..MaxO
vars == <<st, fl, l>>
B(x) == IF x THEN 1 ELSE 0
Of(r) == CHOOSE s \in 0..3 : r = <<B(s = 0), B(s = 1), B(s = 2), B(s = 3)>>
\* every living object and every flag shows the stage of its object, whether or not the object still exists
Observed(t, f) ==
    /\ Len(Ev.objs) = Cardinality({o \in 1..MaxO : L!Exists(t[o])})
    /\ \A i \in 1..Len(Ev.objs) : LET x == Ev.objs[i] s == t[x[1]].st IN
          L!Exists(t[x[1]]) /\ x = <<x[1], s, B(s = 0), B(s = 1), B(s = 2), B(s = 3)>>
    /\ Len(Ev.fl) = Cardinality({i \in 1..6 : f[i] # 0})
    /\ \A i \in 1..Len(Ev.fl) : LET x == Ev.fl[i] s == t[f[x[1]]].st IN
          f[x[1]] # 0 /\ x = <<x[1], B(s = 0), B(s = 1), B(s = 2), B(s = 3), B(s = x[7]), x[7]>>
    /\ \A o \in 1..MaxO : L!Inv(t[o])
Do(name, t, f) == IsEvent(name) /\ st' = t /\ fl' = f /\ Observed(t, f)
Set(o, r) == [st EXCEPT ![o] = r]
O == Ev.o
Stage(o) == Ev.s
TInit == l = 1 /\ st = [o \in 1..MaxO |-> L!None] /\ fl = [i \in 1..6 |-> 0]
Next ==
    \/ Do("reset", [o \in 1..MaxO |-> L!None], [i \in 1..6 |-> 0])
    \/ Do("new", Set(O, L!Born(Ev.k, Ev.s)), fl) /\ st[O].k = -1
    \/ Do("copy", Set(O, L!Born(st[Ev.f].k, st[Ev.f].st)), fl) /\ st[O].k = -1 /\ L!Exists(st[Ev.f])
    \/ Do("assign", st, fl)
    \/ Do("alive", IF L!CanSetAlive(st[O]) THEN Set(O, L!SetAlive(st[O])) ELSE st, fl) /\ Ev.threw = ~L!CanSetAlive(st[O])
    \/ IsEvent("begin") /\ L!Exists(st[O]) /\ st' = Set(O, L!Begin(st[O])) /\ UNCHANGED fl
    \/ IsEvent("noteing") /\ L!CanNoteIng(st[O], Ev.s) /\ Do("noteing", Set(O, L!NoteIng(st[O], Ev.s)), fl)
    \/ IsEvent("noteed") /\ L!CanNoteEd(st[O], Ev.s) /\ Do("noteed", Set(O, L!NoteEd(st[O], Ev.s)), fl)
    \/ IsEvent("refused") /\ st[O].k = 0 /\ st[O].st = 3 /\ Ev.w = "ing" /\ st' = Set(O, [st[O] EXCEPT !.dep = @ - 1]) /\ UNCHANGED fl
    \/ /\ IsEvent("end") /\ L!EndOk(st[O], Ev.w, Ev.s) /\ ~(Ev.w = "ing" /\ st[O].k = 0 /\ st[O].st = 3)
       /\ Do("end", Set(O, L!End(st[O], Ev.w, Ev.s)), fl)
    \/ Do("flag", st, [fl EXCEPT ![Ev.i] = O])
    \/ Do("fcopy", st, [fl EXCEPT ![Ev.i] = fl[Ev.f]])
    \/ Do("fdrop", st, [fl EXCEPT ![Ev.i] = 0])
Spec == TInit /\ [][Next]_vars
=============================================================================
