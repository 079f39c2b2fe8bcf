---------------------------- MODULE SettingsTrace ----------------------------
EXTENDS TraceBase, FiniteSets
VARIABLE s
T == INSTANCE Settings
vars == <<s, l>>
Keys == 1..7
Cat == <<1, 1, 1, 2, 3, 3, 4>>    \* "a", "a.b", "a.b.c", "ab", "b.x", "b.x1.y", "c.b"
TInit == l = 1 /\ s = T!Fresh(Keys, FALSE)
View(t, k) == LET x == t.st[k] IN [k |-> k, def |-> x.def, v |-> T!Shown(x), n |-> T!ShownNew(x), isdef |-> T!IsDefault(x), isdefn |-> T!IsDefaultNew(x), mod |-> T!Modified(x), en |-> x.en]
\* what every event shows of the state it leaves
Take(r) == /\ Ev.ann = r.ann
           /\ Ev.found /\ Ev.dirty = T!Dirty(r.s) /\ Ev.order = r.s.reg
           /\ LET q == T!SortedSeq(T!Registered(r.s)) IN Ev.view = [i \in DOMAIN q |-> View(r.s, q[i])]
           /\ s' = r.s
In == Ev.k \in T!Registered(s)
Cons == <<IF Ev.opt THEN 1 ELSE 0, IF Ev.dis THEN 1 ELSE 0>> \o (IF Ev.n = 0 THEN <<0, 0, 0, 0>> ELSE <<1, Ev.n, 2, Ev.n>>)
Next ==
    \/ IsEvent("reset") /\ Take(T!Same(T!Fresh(Keys, Ev.file)))
    \/ IsEvent("reg") /\ IF In THEN Ev.res = "already" /\ Take(T!Same(s))
                         ELSE Ev.res = "ok" /\ Ev.cons = Cons /\ \E f \in T!Loads(s, Ev.k) : Take(T!Register(s, Ev.k, Ev.d, Ev.opt, Ev.dis, f))
    \/ IsEvent("set") /\ In /\ Take(IF Ev.now THEN T!SetNow(s, Ev.k, Ev.x) ELSE T!Set(s, Ev.k, Ev.x))
    \/ IsEvent("change") /\ In /\ Take(T!Change(s, Ev.k, Ev.x, Ev.now))
    \/ IsEvent("clear") /\ In /\ IF s.st[Ev.k].opt THEN Ev.res = "ok" /\ Take(T!Clear(s, Ev.k)) ELSE Ev.res = "notoptional" /\ Take(T!Same(s))
    \/ IsEvent("setdef") /\ In /\ Take(T!SetDefault(s, Ev.k, Ev.x))
    \/ IsEvent("enable") /\ In /\ Take(T!Enable(s, Ev.k, Ev.on))
    \/ IsEvent("apply") /\ Take(T!ApplyAll(s, Cat))
    \/ IsEvent("discard") /\ Take(T!DiscardAll(s))
    \/ IsEvent("delete") /\ In /\ Take(T!Delete(s, Ev.k))
    \/ IsEvent("pending") /\ In /\ Ev.res = s.st[Ev.k].new /\ Take(T!Same(s))
    \/ IsEvent("missing") /\ ~In /\ Ev.thrown /\ Take(T!Same(s))
    \/ IsEvent("save") /\ Take(T!Same(T!Save(s)))
    \/ IsEvent("load") /\ Take(T!Same(s))
    \/ IsEvent("reopen") /\ Take(T!Reopen(s))
    \/ IsEvent("friend") /\ In /\ Take(T!Same([s EXCEPT !.fr[Ev.k] = T!Store(@, Ev.t, Ev.f)]))
    \/ IsEvent("friendly") /\ In /\ Ev.f = T!Lookup(s.fr[Ev.k], Ev.t, Ev.t) /\ Take(T!Same(s))
    \/ IsEvent("title") /\ Take(T!Same(IF Ev.grp THEN [s EXCEPT !.grps = T!Store(@, Ev.name, Ev.t)] ELSE [s EXCEPT !.cats = T!Store(@, Ev.name, Ev.t)]))
    \/ IsEvent("titled") /\ Ev.t = T!Lookup(IF Ev.grp THEN s.grps ELSE s.cats, Ev.name, "none") /\ Ev.cats = Len(s.cats) /\ Ev.groups = Len(s.grps) /\ Take(T!Same(s))
Spec == TInit /\ [][Next]_vars
=============================================================================
