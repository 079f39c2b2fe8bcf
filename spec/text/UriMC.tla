--------------------------------- MODULE UriMC ---------------------------------
(* Every part can be given any value and is found again in the text written. *)
EXTENDS Uri
CONSTANT Deep
VARIABLE u
Alphabet == {97, Percent, Hash, Slash, Colon, Ask, At, Open, Close, 52}
Short == {<<>>} \cup {<<a>> : a \in Alphabet}
Texts == IF Deep THEN Short \cup {<<a, b>> : a \in Alphabet, b \in Alphabet} \cup {<<Percent, 52, 49>>, <<Open, Colon, Close>>, <<Colon, Slash, Slash>>} ELSE Short \cup {<<Percent, 52, 49>>, <<Open, Colon, Close>>, <<Colon, Slash, Slash>>}
Init == u = Empty
Parts == {"scheme", "path", "query", "fragment"}
\* how many parts are there: two at a time are enough to meet each other
Count == Cardinality({f \in Parts : u[f] # <<>>}) + Cardinality({f \in {"user", "host"} : u.authority[f] # None}) + (IF u.authority.port = -1 THEN 0 ELSE 1)
SetPart(f, t) == u[f] = <<>> /\ t # <<>> /\ u' = [u EXCEPT ![f] = t]
SetHost(t) == u.authority.host = None /\ t # <<>> /\ u' = [u EXCEPT !.authority.host = t]
SetUser(t) == u.authority.user = None /\ u' = [u EXCEPT !.authority.user = t]
SetPort(p) == u.authority.port = -1 /\ u' = [u EXCEPT !.authority.port = p]
Next == Count < 2 /\ \E t \in Texts : (\E f \in Parts : SetPart(f, t)) \/ SetHost(t) \/ SetUser(t) \/ \E p \in {0, 80, 443} : SetPort(p)
Spec == Init /\ [][Next]_u
RoundTrip == Denoted(Written(u)) = u
Clean == \A i \in DOMAIN Written(u) : Written(u)[i] \in Plain
DecodeEncode == u = Empty => \A t \in Texts : Decode(Encode(t, {Percent})) = t /\ Decode(Encode(t, Alphabet)) = t
=============================================================================
