------------------------------ MODULE StreamTrace ------------------------------
(* Recorded histories of packet streams. s: the two ends (2: only when it is a stream of ours, raw: the other end is a plain
   socket), w: bytes on their way to each end, not delivered yet. Framed: text packets, else bytes as they come. *)
EXTENDS TraceBase, FiniteSets
CONSTANT Framed
VARIABLES s, w, raw
T == INSTANCE Packets
vars == <<s, w, raw, l>>
Ends == {0, 1}
Other(i) == 1 - i
TInit == l = 1 /\ s = [i \in Ends |-> T!NoEnd] /\ w = [i \in Ends |-> <<>>] /\ raw = FALSE
Reset == s' = [i \in Ends |-> T!NoEnd] /\ w' = [i \in Ends |-> <<>>] /\ raw' = FALSE
Put(e) == s' = [s EXCEPT ![Ev.s] = e] /\ UNCHANGED <<w, raw>>
\* puts the end in place, sending what it can
Go(e) == LET r == T!Start(e) IN s' = [s EXCEPT ![Ev.s] = r.e] /\ w' = [w EXCEPT ![Other(Ev.s)] = @ \o r.wire] /\ UNCHANGED raw
E == s[Ev.s]
\* the first packet of x with all the delimiters before it: what is left
RECURSIVE Skip(_)
Skip(x) == IF x # <<>> /\ T!Delim(Head(x)) THEN Skip(Tail(x)) ELSE x
IsPrefix(a, b) == Len(a) <= Len(b) /\ SubSeq(b, 1, Len(a)) = a
Drop(x, n) == SubSeq(x, n + 1, Len(x))
Arrives(x) == LET i == Ev.s t == IF Framed THEN Skip(w[i]) ELSE w[i] IN
    /\ x # <<>> /\ IsPrefix(x, t)
    /\ Framed => (\A j \in DOMAIN x : ~T!Delim(x[j])) /\ Len(t) > Len(x) /\ T!Delim(t[Len(x) + 1])
    /\ w' = [w EXCEPT ![i] = Drop(t, Len(x) + IF Framed THEN 1 ELSE 0)]
Settled == /\ s[0].st = "conn" /\ T!Under(s[0]) /\ raw = Ev.raw
           /\ (IF Framed THEN T!Frame(<<>>, w[0], <<>>).out = <<>> ELSE w[0] = <<>>)
           /\ (IF raw THEN w[1] = <<>> ELSE T!Under(s[1]) /\ (IF Framed THEN T!Frame(<<>>, w[1], <<>>).out = <<>> ELSE w[1] = <<>>))
Next ==
    \/ IsEvent("reset") /\ Reset
    \/ IsEvent("new") /\ E.st = "none" /\ Put(T!NewEnd)
    \* a new connection starts with nothing under way
    \/ IsEvent("open") /\ E.st = "idle" /\ s' = [s EXCEPT ![Ev.s].st = "opening"] /\ w' = [i \in Ends |-> <<>>] /\ raw' = FALSE
    \/ IsEvent("already") /\ T!Opened(E) /\ Ev.thrown /\ UNCHANGED <<s, w, raw>>
    \/ IsEvent("est") /\ E.st = "opening" /\ Put([E EXCEPT !.st = "conn"])
    \/ IsEvent("estend") /\ (IF E.st = "conn" THEN Go(E) ELSE UNCHANGED <<s, w, raw>>)
    \/ IsEvent("fail") /\ E.st = "opening" /\ Put([E EXCEPT !.st = "failed"])
    \/ IsEvent("accept") /\ E.st = "idle" /\ Go([E EXCEPT !.st = "conn"])
    \/ IsEvent("raccept") /\ raw' = TRUE /\ UNCHANGED <<s, w>>
    \/ IsEvent("rclose") /\ raw' = FALSE /\ UNCHANGED <<s, w>>
    \/ IsEvent("send") /\ E.st # "none" /\ Go(T!Queue(E, Ev.x, Ev.hi))
    \/ IsEvent("sent") /\ E.st = "conn" /\ E.busy /\ Ev.x = E.snd /\ Put(T!Sent(E))
    \/ IsEvent("sentend") /\ (IF E.st = "conn" THEN Go(E) ELSE UNCHANGED <<s, w, raw>>)
    \/ IsEvent("arr") /\ E.st = "conn" /\ Arrives(Ev.x) /\ UNCHANGED <<s, raw>>
    \/ IsEvent("rsend") /\ raw /\ w' = [w EXCEPT ![0] = @ \o Ev.x] /\ UNCHANGED <<s, raw>>
    \/ IsEvent("rrecv") /\ raw /\ IsPrefix(Ev.x, w[1]) /\ w' = [w EXCEPT ![1] = Drop(@, Len(Ev.x))] /\ UNCHANGED <<s, raw>>
    \/ IsEvent("tfail") /\ E.st = "conn" /\ UNCHANGED <<s, w, raw>>
    \* by itself when the other end has gone, or in the course of a close or an end of its own
    \/ IsEvent("closed") /\ E.st \in {"conn", "closing", "ending"} /\ Put(IF E.st = "ending" THEN [E EXCEPT !.st = "ended"] ELSE T!Closed(E))
    \/ IsEvent("close") /\ E.st # "none" /\ Put(IF E.st = "conn" THEN [E EXCEPT !.st = "closing"] ELSE T!Closed(E))
    \/ IsEvent("closeend") /\ E.st # "closing" /\ UNCHANGED <<s, w, raw>>
    \/ IsEvent("destroy") /\ E.st # "none" /\ Put(IF E.st = "conn" THEN [E EXCEPT !.st = "ending"] ELSE [E EXCEPT !.st = "ended"])
    \/ IsEvent("destroyed") /\ E.st = "ended" /\ Put(T!NoEnd)
    \/ IsEvent("look") /\ Ev.opened = T!Opened(E) /\ Ev.closed = ~T!Opened(E) /\ Ev.conn = (E.st = "conn") /\ Ev.under = T!Under(E) /\ UNCHANGED <<s, w, raw>>
    \* everything has arrived
    \/ IsEvent("settled") /\ Settled /\ UNCHANGED <<s, w, raw>>
Spec == TInit /\ [][Next]_vars
=============================================================================
