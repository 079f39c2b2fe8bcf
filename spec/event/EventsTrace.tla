---------------------------- MODULE EventsTrace ----------------------------
(* Validates recorded histories of events, slots, sinks and event queues against Events.  Two threads take turns at
   every operation boundary, inside handlers too. *)
EXTENDS TraceBase, FiniteSets
VARIABLE st
V == INSTANCE Events WITH Evs <- 1..12, Slots <- 1..60, Sinks <- 1..3, Threads <- 1..2
vars == <<st, l>>
Idle(s) == \A t \in 1..2 : s.fr[t] = <<>>
\* has: live events and whether they have slots; emp: sinks that are empty; al: slots that still exist
Observed(s) ==
    /\ Len(Ev.has) = Cardinality({e \in 1..12 : s.ev[e].up})
    /\ \A i \in 1..Len(Ev.has) : LET x == Ev.has[i] IN s.ev[x[1]].up /\ x[2] = (IF s.ev[x[1]].subs = <<>> THEN 0 ELSE 1)
    /\ \A k \in 1..3 : Ev.emp[k] = (IF s.sk[k] = <<>> THEN 1 ELSE 0)
    /\ LET A == {Ev.al[i] : i \in 1..Len(Ev.al)}
           R == {x \in 1..60 : s.sl[x].ev # 0 /\ V!Referenced(s, x)} IN
       /\ R \subseteq A
       /\ (Idle(s) => A = R)
Put(s) == st' = s /\ Observed(s)
T == Ev.t
\* where a new subscription is kept: its handle, a sink (replacing or adding to what it holds), or nowhere
Keep(s, x) == CASE Ev.w = "h" -> V!Hold(s, x) [] Ev.w = "=" -> V!SinkSet(s, Ev.k, x) [] Ev.w = "+" -> V!SinkAdd(s, Ev.k, x) [] OTHER -> s
TInit == l = 1 /\ st = V!Start
Next ==
    \/ IsEvent("reset") /\ Put(V!Start)
    \/ IsEvent("newev") /\ Put(V!NewEv(st, Ev.v, Ev.y))
    \/ IsEvent("delev") /\ Put(V!DelEv(st, Ev.v))
    \/ IsEvent("copyev") /\ Put(V!NewEv(st, Ev.v, st.ev[Ev.f].type))
    \/ IsEvent("assignev") /\ Put(V!AssignEv(st, Ev.v, Ev.f))
    \/ IsEvent("type") /\ Put(V!SetType(st, Ev.v, Ev.y))
    \/ IsEvent("sub") /\ Put(Keep(V!Sub(st, Ev.s, Ev.v, Ev.p, Ev.em, Ev.sta, T), Ev.s))
    \/ IsEvent("remove") /\ Put(V!Unsub(st, {Ev.s}))
    \/ IsEvent("drop") /\ Put(V!Drop(st, Ev.s))
    \/ IsEvent("sclear") /\ Put(V!SinkClear(st, Ev.k))
    \/ IsEvent("sadd") /\ Put(V!SinkAdd(st, Ev.k, Ev.s))
    \/ IsEvent("scopy") /\ Put(V!SinkCopy(st, Ev.k, Ev.f))
    \/ IsEvent("atrig") /\ V!IsAsync(st, Ev.v, Ev.how) /\ Put(V!AsyncTrigger(st, T, Ev.v, Ev.a)) /\ (Ev.how = "auto" => Ev.res = 0)
    \/ IsEvent("trig") /\ ~V!IsAsync(st, Ev.v, Ev.how) /\ st' = V!BeginTrigger(st, T, Ev.v, Ev.a)
    \/ IsEvent("call") /\ V!CanCall(st, T, Ev.s, Ev.a) /\ Put(V!Call(st, T, Ev.s, Ev.a))
    \/ IsEvent("ret") /\ V!Top(st, T).cur = Ev.s /\ Put(V!Return(st, T))
    \/ IsEvent("throw") /\ V!Top(st, T).cur = Ev.s /\ Put(IF V!Top(st, T).k = "trig" THEN V!Pop(st, T) ELSE V!ThrowPump(st, T))
    \/ IsEvent("endtrig") /\ V!CanEndTrigger(st, T) /\ Ev.res = V!Result(st, T) /\ Put(V!EndTrigger(st, T))
    \/ IsEvent("accept") /\ Put(V!Accept(st, T, Ev.v))
    \/ IsEvent("pump") /\ st' = V!BeginPump(st, T)
    \/ IsEvent("endpump") /\ V!CanEndPump(st, T) /\ Ev.did = V!Top(st, T).some /\ Put(V!Pop(st, T))
Spec == TInit /\ [][Next]_vars
=============================================================================
