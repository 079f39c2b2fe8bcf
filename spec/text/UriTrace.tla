------------------------------- MODULE UriTrace -------------------------------
(* Recorded parsing, changing and writing of URIs against Uri. *)
EXTENDS TraceBase, FiniteSets
VARIABLE u
vars == <<l, u>>
U == INSTANCE Uri
TInit == l = 1 /\ u = U!Empty
Next ==
    \/ IsEvent("new") /\ UNCHANGED u
    \* a text that denotes nothing leaves things as they are
    \/ IsEvent("parse") /\ LET d == U!Denoted(Ev.t) IN Ev.ok = U!Sound(d) /\ u' = (IF U!Sound(d) THEN d ELSE u) /\ Ev.u = u'
    \/ IsEvent("set") /\ u' = [u EXCEPT ![Ev.part] = Ev.t] /\ Ev.u = u'
    \/ IsEvent("authority") /\ u' = [u EXCEPT !.authority = U!Authority(Ev.t)] /\ Ev.u = u'
    \* what is written may be any text that denotes this
    \/ IsEvent("written") /\ U!Denoted(Ev.t) = u /\ (\A i \in DOMAIN Ev.t : Ev.t[i] \in U!Plain) /\ UNCHANGED u
    \/ IsEvent("copy") /\ Ev.u = u /\ UNCHANGED u
    \/ IsEvent("code") /\ Ev.decoded = U!Decode(Ev.t) /\ U!Decode(Ev.encoded) = U!Decode(Ev.t) /\ (\A i \in DOMAIN Ev.encoded : Ev.encoded[i] \in U!Plain) /\ UNCHANGED u
    \/ IsEvent("end") /\ UNCHANGED u
Spec == TInit /\ [][Next]_vars
=============================================================================
