--------------------------- MODULE RefCountTrace ---------------------------
(* Validates recorded histories of ref_ptr / weak_ref_ptr / reference_counted against RefCount. *)
EXTENDS TraceBase, FiniteSets
VARIABLE st
R == INSTANCE RefCount WITH Slots <- 1..5, Weaks <- 1..3, MaxObj <- 16
vars == <<st, l>>
B(x) == IF x THEN 1 ELSE 0
Show(t, v) == <<v.p, v.m, B(v.c), IF v.c THEN R!Uses(t, v.m) ELSE 0>>
Observed(t) ==
    /\ \A i \in 1..5 : Ev.sl[i] = Show(t, t.sl[i])
    /\ Len(Ev.objs) = Cardinality(t.alive)
    /\ \A i \in 1..Len(Ev.objs) : LET x == Ev.objs[i] o == x[1] IN
          /\ o \in t.alive /\ x[2] = R!Uses(t, o) /\ x[3] = B(o \in t.pin)
          /\ <<x[4], x[5], x[6], x[7]>> = Show(t, t.sl[R!NextOf(o)])
    /\ \A w \in 1..3 : Ev.wk[w] = <<B(R!Expired(t, w)), IF R!Expired(t, w) THEN 0 ELSE t.wk[w]>>
    /\ Ev.dtors = Cardinality(t.dead) /\ Ev.bad = 0
Do(name, t) == IsEvent(name) /\ st' = t /\ Observed(t)
TInit == l = 1 /\ st = R!Start
Next ==
    \/ Do("reset", R!Start)
    \/ Do("new", R!New(st, Ev.s, Ev.o)) /\ Ev.o \notin st.alive
    \/ Do("bare", R!Bare(st, Ev.o)) /\ Ev.o \notin st.alive
    \/ Do("copy", R!Copy(st, Ev.s, Ev.f))
    \/ Do("move", R!Move(st, Ev.s, Ev.f))
    \/ Do("swap", R!Swap(st, Ev.s, Ev.f))
    \/ Do("alias", R!Alias(st, Ev.s, Ev.f, Ev.p, Ev.mv))
    \/ Do("clear", R!Reset(st, Ev.s))
    \/ Do("resetto", R!ResetTo(st, Ev.s, Ev.p, Ev.m))
    \/ Do("refer", R!Refer(st, Ev.s, Ev.o))
    \/ Do("detach", R!Detach(st, Ev.s)) /\ Ev.res = st.sl[Ev.s].m
    \/ Do("release", IF R!MayRelease(st, Ev.s) THEN R!Release(st, Ev.s) ELSE st)
       /\ Ev.threw = ~R!MayRelease(st, Ev.s) /\ (~Ev.threw => Ev.res = st.sl[Ev.s].m)
    \/ Do("addref", R!AddRef(st, Ev.o))
    \/ Do("dropref", R!DropRef(st, Ev.o))
    \/ Do("adopt", R!Adopt(st, Ev.s, Ev.o))
    \/ Do("pin", R!Pin(st, Ev.o))
    \/ Do("unpin", R!Unpin(st, Ev.o))
    \/ Do("observe", R!Observe(st, Ev.w, Ev.o))
    \/ Do("wcopy", R!Observe(st, Ev.w, st.wk[Ev.f]))
    \/ Do("wreset", R!Observe(st, Ev.w, 0))
    \/ Do("upgrade", R!Upgrade(st, Ev.s, Ev.w))
    \/ Do("deref", st) /\ Ev.threw = (st.sl[Ev.s].p = 0)
       /\ (~Ev.threw => Ev.res = st.sl[Ev.s].p)
    \/ Do("wderef", st) /\ Ev.threw = R!Expired(st, Ev.w)
       /\ (~Ev.threw => Ev.res = st.wk[Ev.w])
    \/ Do("badcast", st) /\ Ev.threw
    \/ Do("query", st) /\ LET v == st.sl[Ev.s] IN
          /\ Ev.valid = (v.p # 0) /\ Ev.managing = (v.m # 0)
          /\ Ev.unique = (IF v.c THEN R!Uses(st, v.m) = 1 ELSE v.p # 0)
          /\ Ev.eq = (v.p = st.sl[Ev.f].p)
    \/ Do("cast", IF Ev.ok THEN (IF Ev.mv THEN R!Move(st, Ev.s, Ev.f) ELSE R!Copy(st, Ev.s, Ev.f)) ELSE R!Reset(st, Ev.s))
       /\ Ev.ok = (Ev.want /\ st.sl[Ev.f].p # 0)
Spec == TInit /\ [][Next]_vars
=============================================================================
