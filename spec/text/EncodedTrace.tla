------------------------------ MODULE EncodedTrace ------------------------------
(* Recorded writing, reading and comparing against Encoded. *)
EXTENDS TraceBase, FiniteSets
vars == <<l>>
C == INSTANCE Encoded
TInit == l = 1
V(x) == [n |-> x.n, name |-> x.name]
Next ==
    \* a number of so many bytes, the least first
    \/ IsEvent("uleb") /\ Ev.code = C!Uleb(C!Bits(Ev.v))
    \/ IsEvent("sleb") /\ Ev.code = C!Sleb(C!Bits(Ev.v))
    \/ IsEvent("uuid") /\ Ev.t = C!UuidText(Ev.u) /\ Ev.same
    \/ IsEvent("uuidread") /\ Ev.u = C!UuidRead(Ev.t)
    \/ IsEvent("uuidorder") /\ Ev.less = C!Less(Ev.a, Ev.b) /\ Ev.eq = (Ev.a = Ev.b) /\ Ev.more = C!Less(Ev.b, Ev.a) /\ (Ev.eq => Ev.hash)
    \/ IsEvent("generated") /\ C!Random4(Ev.u) /\ Ev.fresh
    \/ IsEvent("version") /\ Ev.t = C!VersionText(V(Ev.v)) /\ Ev.brief = C!VersionBrief(V(Ev.v)) /\ Ev.copy = Ev.v
    \/ IsEvent("versionread") /\ V(Ev.v) = C!VersionRead(Ev.t)
    \/ IsEvent("versionorder") /\ Ev.less = C!VersionLess(V(Ev.a), V(Ev.b)) /\ Ev.eq = C!VersionSame(V(Ev.a), V(Ev.b)) /\ Ev.more = C!VersionLess(V(Ev.b), V(Ev.a))
    \/ IsEvent("dump") /\ Ev.t = C!Dump(Ev.b, Ev.w)
    \* writing one of these says nothing about how the next thing is to be written
    \/ IsEvent("left") /\ Ev.after = Ev.before
    \/ IsEvent("end")
Spec == TInit /\ [][Next]_vars
=============================================================================
