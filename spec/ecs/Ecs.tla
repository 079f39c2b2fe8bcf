-------------------------------- MODULE Ecs --------------------------------
(* An entity component system.  A state w is                                                           *)
(*   [pop     |-> whether entities get a record of archetype and creation time,                        *)
(*    live    |-> entity -> archetype it was created with,                                             *)
(*    comps   |-> component -> (entity -> value),                                                      *)
(*    born, span |-> entity -> creation time / life span,                                              *)
(*    doomed  |-> entity -> notify: entities whose destruction has been asked for and is to come,      *)
(*    pending |-> sequence of creations to come,                                                       *)
(*    handles |-> handle id -> object,                                                                 *)
(*    depth   |-> system -> how often it is paused, -1 before it exists,                               *)
(*    paused  |-> whether all systems are paused, arch |-> registered archetypes,                      *)
(*    objs    |-> entity objects: 0 - 1 none, 0 empty, otherwise the entity the object owns,           *)
(*    now     |-> the world clock]                                                                     *)
EXTENDS Integers, Sequences, FiniteSets
None == [x \in {} |-> 0]
With(m, e, v) == [x \in DOMAIN m \cup {e} |-> IF x = e THEN v ELSE m[x]]
Without(m, es) == [x \in DOMAIN m \ es |-> m[x]]
Components == {"p", "h", "d", "r"}
Fresh(pop, paused) == [pop |-> pop, live |-> None, comps |-> [c \in Components |-> None], born |-> None, span |-> None, doomed |-> None, pending |-> <<>>,
    handles |-> None, depth |-> [n \in 1..4 |-> 0 - 1], paused |-> paused, arch |-> {}, objs |-> <<0 - 1, 0 - 1>>, now |-> 0]
Values(w, es) == UNION {{w.comps["d"][e] : e \in es \cap DOMAIN w.comps["d"]}}

Populate(w, e, c, v) == [w EXCEPT !.comps[c] = With(@, e, v)]
Default(w, e, a) == IF a % 2 = 1 /\ e \notin DOMAIN w.comps["h"] THEN Populate(w, e, "h", 100 + a) ELSE w
Start(w, n) == IF w.depth[n] >= 0 THEN w ELSE [w EXCEPT !.depth[n] = IF w.paused THEN 1 ELSE 0]
\* an entity with nothing but its identity; the time system is asked for the time of its birth
Born(w, e, a) == LET t == [w EXCEPT !.live = With(@, e, a)] IN IF w.pop THEN Start([t EXCEPT !.born = With(@, e, w.now)], 4) ELSE t
\* how: 0 one record, 1 two records, 2 the other record, 3 by archetype without records, 4 by the archetype's id without records
Given(w, e, v, how) == LET t == IF how \in {0, 1} THEN Populate(w, e, "p", v) ELSE w IN IF how \in {1, 2} THEN Populate(t, e, "h", IF how = 1 THEN v + 10 ELSE v) ELSE t
Create(w, e, a, v, how) ==
    LET t == Given(Born(w, e, a), e, v, how)
        r == IF how \in 0..3 THEN [t EXCEPT !.arch = @ \cup {a}] ELSE t
    IN IF how \in 0..2 THEN Default(r, e, a) ELSE r
RECURSIVE CreateAll(_, _, _)
CreateAll(w, es, q) == IF q = <<>> THEN w ELSE CreateAll(Create(w, es[1], q[1].a, q[1].v, q[1].how), Tail(es), Tail(q))

\* the entities es cease to exist: with all their records and the handles those hold
Gone(w, es, told) == [w EXCEPT !.live = Without(@, es), !.comps = [c \in Components |-> Without(@[c], es)], !.born = Without(@, es), !.span = Without(@, es),
    !.doomed = Without(@, es), !.handles = Without(@, Values(w, es)), !.objs = [s \in 1..2 |-> IF @[s] \in es \cap told THEN 0 ELSE @[s]]]
Doom(w, e, notify) == IF e \in DOMAIN w.doomed THEN w ELSE [w EXCEPT !.doomed = With(@, e, notify)]
Told(w) == {e \in DOMAIN w.doomed : w.doomed[e]}
Expired(w) == {e \in DOMAIN w.span : e \notin DOMAIN w.doomed /\ w.now - w.born[e] > w.span[e]}
Expire(w) == [w EXCEPT !.doomed = [e \in DOMAIN @ \cup Expired(w) |-> IF e \in DOMAIN @ THEN @[e] ELSE TRUE]]

PauseAll(w) == IF w.paused THEN w ELSE [w EXCEPT !.paused = TRUE, !.depth = [n \in 1..4 |-> IF @[n] < 0 THEN @[n] ELSE @[n] + 1]]
ResumeAll(w) == IF ~w.paused THEN w ELSE [w EXCEPT !.paused = FALSE, !.depth = [n \in 1..4 |-> IF @[n] < 0 THEN @[n] ELSE @[n] - 1]]

\* what must hold throughout
Wf(w) == /\ \A c \in Components : DOMAIN w.comps[c] \subseteq DOMAIN w.live
         /\ DOMAIN w.span \subseteq DOMAIN w.live /\ (w.pop => DOMAIN w.born = DOMAIN w.live) /\ DOMAIN w.doomed \subseteq DOMAIN w.live
         /\ Values(w, DOMAIN w.live) \subseteq DOMAIN w.handles
         /\ \A e, f \in DOMAIN w.comps["d"] : e # f => w.comps["d"][e] # w.comps["d"][f]
         /\ \A s \in 1..2 : w.objs[s] > 0 => w.objs[s] \in DOMAIN w.live
         /\ \A n \in 1..4 : w.paused => w.depth[n] # 0
=============================================================================
