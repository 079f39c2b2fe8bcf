----------------------------- MODULE StoreTrace -----------------------------
(* Histories of real component stores (and shared components) against Store. *)
EXTENDS TraceBase, FiniteSets
VARIABLES s, sh
X == INSTANCE Store
vars == <<s, sh, l>>
Probe(p, m) == p = <<p[1], IF X!Has(m, p[1]) THEN 1 ELSE 0, IF X!Has(m, p[1]) THEN m[p[1]] ELSE 0 - 7>>
Observed(t) ==
    /\ X!Lists(Ev.s, t.rec)
    /\ \A i \in 1..Len(Ev.probes) : Probe(Ev.probes[i], t.rec)
    /\ ("snap" \in DOMAIN Ev) = t.taken
    /\ t.taken => X!Lists(Ev.snap, t.snap)
    /\ Ev.bad = 0
StepFreed(t, freed) == s' = t /\ UNCHANGED sh /\ Observed(t) /\ Ev.freed = freed
Step(t) == StepFreed(t, <<>>)
SObserved(m) == Ev.bad = 0 /\ Len(Ev.s) = Cardinality(DOMAIN m) /\ {Ev.s[i] : i \in 1..Len(Ev.s)} = {<<n, m[n].v, m[n].at>> : n \in DOMAIN m}
SStep(m) == sh' = m /\ UNCHANGED s /\ SObserved(m)
\* a name is bound to one record for good, and no two names to the same
Named(n, at) == IF n \in DOMAIN sh THEN sh[n].at = at ELSE \A o \in DOMAIN sh : sh[o].at # at
Next ==
    \/ IsEvent("reset") /\ Step(X!Fresh)
    \/ IsEvent("fill") /\ LET m == [e \in {Ev.all[2 * i - 1] : i \in 1..(Len(Ev.all) \div 2)} |-> Ev.all[2 * (CHOOSE i \in 1..(Len(Ev.all) \div 2) : Ev.all[2 * i - 1] = e)]] IN Step([s EXCEPT !.rec = m])
    \/ IsEvent("put") /\ Ev.res = Ev.v /\ Step(X!Put(s, Ev.en, Ev.v))
    \/ IsEvent("make") /\ Step(X!Make(s, Ev.en, Ev.res)) /\ (X!Has(s.rec, Ev.en) => Ev.res = s.rec[Ev.en]) /\ (~X!Has(s.rec, Ev.en) => Ev.res \in {0, 0 - 1})
    \/ IsEvent("del") /\ Ev.ok = X!Has(s.rec, Ev.en) /\ (IF ~Ev.ok THEN Step(s) ELSE StepFreed(X!Del(s, Ev.en), IF Ev.h THEN <<s.rec[Ev.en]>> ELSE <<>>))
    \/ IsEvent("sort") /\ X!Sorted(Ev.s, Ev.down) /\ Step(s)
    \/ IsEvent("take") /\ Step(X!Take(s))
    \/ IsEvent("hold") /\ s.taken /\ Step(X!Hold(s))
    \/ IsEvent("drop") /\ Step(X!Drop(s))
    \/ IsEvent("bump") /\ Ev.n = Cardinality(DOMAIN s.rec) /\ Step(X!Bump(s, LAMBDA v : IF v < 0 THEN v ELSE (v + 1) % 50))
    \/ IsEvent("bad") /\ Ev.threw /\ X!Lists(Ev.copy, s.rec) /\ Step(s)
    \/ IsEvent("sreset") /\ SStep([n \in {} |-> 0])
    \/ IsEvent("sput") /\ Named(Ev.n, Ev.res) /\ Ev.upd > 0 /\ SStep([n \in DOMAIN sh \cup {Ev.n} |-> IF n = Ev.n THEN [v |-> Ev.v, at |-> Ev.res] ELSE sh[n]])
    \/ IsEvent("sget") /\ Named(Ev.n, Ev.res) /\ Ev.v = (IF Ev.n \in DOMAIN sh THEN sh[Ev.n].v ELSE 0)
          /\ SStep([n \in DOMAIN sh \cup {Ev.n} |-> IF n = Ev.n THEN [v |-> Ev.v, at |-> Ev.res] ELSE sh[n]])
    \/ IsEvent("sbad") /\ Ev.threw /\ SStep(sh)
Spec == s = X!Fresh /\ sh = [n \in {} |-> 0] /\ l = 1 /\ [][Next]_vars
=============================================================================
