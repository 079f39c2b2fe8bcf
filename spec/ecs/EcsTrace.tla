------------------------------ MODULE EcsTrace ------------------------------
(* Histories of real entity component systems against Ecs. *)
EXTENDS TraceBase, FiniteSets
VARIABLE w
X == INSTANCE Ecs
vars == <<w, l>>
Set(q) == {q[i] : i \in 1..Len(q)}
Lists(q, m) == Len(q) = Cardinality(DOMAIN m) /\ Set(q) = {<<e, m[e]>> : e \in DOMAIN m}
B(b) == IF b THEN 1 ELSE 0
Observed(t) ==
    /\ \A c \in X!Components : Lists(Ev[c], t.comps[c])
    /\ t.pop => /\ Len(Ev.info) = Cardinality(DOMAIN t.live)
                /\ Set(Ev.info) = {<<e, t.live[e], B(e \in DOMAIN t.doomed), t.born[e]>> : e \in DOMAIN t.live}
                /\ Lists(Ev.life, t.span)
    /\ Lists(Ev.handles, t.handles)
    /\ Ev.sys = [n \in 1..3 |-> IF t.depth[n] < 0 THEN 0 - 1 ELSE B(t.depth[n] > 0)]
    /\ Ev.allpaused = t.paused
    /\ Ev.arch = [i \in 1..4 |-> B(i - 1 \in t.arch)]
    /\ Ev.objs = t.objs
    /\ Ev.bad = 0 /\ Ev.stuck = 0 /\ X!Wf(t)
Events(created, destroyed, freed) ==
    /\ Len(Ev.created) = Cardinality(created) /\ Set(Ev.created) = created
    /\ Len(Ev.destroyed) = Cardinality(destroyed) /\ Set(Ev.destroyed) = destroyed
    /\ Len(Ev.freed) = Cardinality(freed) /\ Set(Ev.freed) = freed
Quiet == Events({}, {}, {})
NoPauses == Ev.pe = 0 /\ Ev.re = 0
Step(t) == w' = t /\ Observed(t)
Still(t) == Step(t) /\ Quiet /\ NoPauses
New(e) == e > 0 /\ e \notin DOMAIN w.live
Perms(n) == {f \in [1..n -> 1..n] : \A i, j \in 1..n : i # j => f[i] # f[j]}
Dies(es, told) == Step(X!Gone(w, es, told)) /\ Events({}, told, X!Values(w, es)) /\ NoPauses
Next ==
    \/ IsEvent("reset") /\ w' = X!Fresh(Ev.pop, Ev.paused) /\ Observed(w') /\ Quiet /\ NoPauses
    \/ IsEvent("create") /\ New(Ev.id) /\ Step(X!Create(w, Ev.id, Ev.a, Ev.v, Ev.how)) /\ Events({Ev.id}, {}, {}) /\ NoPauses
    \/ IsEvent("destroy") /\ Dies({Ev.id}, IF Ev.notify THEN {Ev.id} ELSE {})
    \/ IsEvent("later") /\ Still([w EXCEPT !.pending = Append(@, [a |-> Ev.a, v |-> Ev.v, how |-> Ev.how])])
    \/ IsEvent("creations") /\ Len(Ev.created) = Len(w.pending) /\ Cardinality(Set(Ev.created)) = Len(Ev.created) /\ (\A e \in Set(Ev.created) : New(e)) /\ Events(Set(Ev.created), {}, {}) /\ NoPauses
          /\ \E f \in Perms(Len(w.pending)) : Step(X!CreateAll([w EXCEPT !.pending = <<>>], Ev.created, [i \in DOMAIN f |-> w.pending[f[i]]]))
    \/ IsEvent("doom") /\ (IF w.pop THEN ~Ev.threw /\ Still(X!Doom(w, Ev.id, Ev.notify)) ELSE Ev.threw /\ Still(w))
    \/ IsEvent("dooms") /\ Dies(DOMAIN w.doomed, X!Told(w))
    \/ IsEvent("populate") /\ Still(X!Populate(w, Ev.id, <<"p", "h", "r">>[Ev.c + 1], Ev.v))
    \/ IsEvent("onew") /\ New(Ev.id) /\ Step([X!Create(w, Ev.id, Ev.a, Ev.v, 0) EXCEPT !.objs[Ev.s] = Ev.id]) /\ Events({Ev.id}, {}, {}) /\ NoPauses
    \/ IsEvent("own") /\ Still([w EXCEPT !.objs[Ev.s] = Ev.id])
    \/ IsEvent("odel") /\ Ev.id = w.objs[Ev.s] /\ LET es == {Ev.id} \ {0} t == X!Gone(w, es, es) IN
          Step([t EXCEPT !.objs[Ev.s] = 0 - 1]) /\ Events({}, es, X!Values(w, es)) /\ NoPauses
    \/ IsEvent("detach") /\ Ev.id = w.objs[Ev.s] /\ Still([X!Default(w, Ev.id, w.live[Ev.id]) EXCEPT !.objs[Ev.s] = 0])
    \/ IsEvent("handle") /\ Ev.hid > 0 /\ Ev.hid \notin DOMAIN w.handles /\ LET t == [w EXCEPT !.handles = X!With(@, Ev.hid, Ev.ptr)] IN Still(IF Ev.id > 0 THEN X!Populate(t, Ev.id, "d", Ev.hid) ELSE t)
    \/ IsEvent("hset") /\ Ev.got = Ev.ptr /\ Still([w EXCEPT !.handles = X!With(@, Ev.hid, Ev.ptr)])
    \/ IsEvent("hfree") /\ Ev.got = w.handles[Ev.hid] /\ Still([w EXCEPT !.handles = X!Without(@, {Ev.hid})])
    \/ IsEvent("nohandle") /\ Ev.threw /\ Still(w)
    \/ IsEvent("archetype") /\ Still([w EXCEPT !.arch = @ \cup {Ev.a}])
    \/ IsEvent("again") /\ Ev.threw /\ Still(w)
    \/ IsEvent("system") /\ LET t == X!Start(w, Ev.n) IN Still(t) /\ Ev.avail /\ Ev.can /\ Ev.applied = (t.depth[Ev.n] = 0)
    \/ IsEvent("pause") /\ Still([w EXCEPT !.depth[Ev.n] = @ + 1])
    \/ IsEvent("resume") /\ Still([w EXCEPT !.depth[Ev.n] = @ - 1])
    \/ IsEvent("pauseall") /\ Step(X!PauseAll(w)) /\ Quiet /\ Ev.pe = B(~w.paused) /\ Ev.re = 0
    \/ IsEvent("resumeall") /\ Step(X!ResumeAll(w)) /\ Quiet /\ Ev.pe = 0 /\ Ev.re = B(w.paused)
    \/ IsEvent("refuse") /\ Ev.threw = 4 /\ Ev.reg /\ Still(w)
    \/ IsEvent("span") /\ Still([w EXCEPT !.span = X!With(@, Ev.id, Ev.v)])
    \/ IsEvent("time") /\ LET t == X!Start([w EXCEPT !.now = Ev.now], 4) IN Ev.did = (t.depth[4] = 0) /\ Still(IF Ev.did THEN X!Expire(t) ELSE t)
Spec == w = X!Fresh(FALSE, FALSE) /\ l = 1 /\ [][Next]_vars
=============================================================================
