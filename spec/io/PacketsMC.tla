------------------------------- MODULE PacketsMC -------------------------------
(* Packet streams as a machine: the sender's queue, the bytes between the ends, the chunks in which they are read and the pending
   text of the receiver, over connections that come and go. Invariants say what a user of the streams relies on: what arrives is,
   packet by packet and in the order they were sent, what was sent since the connection was made, however it is cut into chunks
   and wherever the chunks begin and end; nothing of one connection turns up in the next one. The receiver takes chunks with the
   algorithm of string_packet::take_some. *)
EXTENDS Packets, TLC
CONSTANTS Texts, MaxChunk, Sends, Connections
VARIABLES e, wire, rest, arrived, started, made, budget
vars == <<e, wire, rest, arrived, started, made, budget>>
MCTexts == {<<97, LF>>, <<98, CR, LF>>, <<CR, 97>>, <<LF>>, <<>>, <<97, LF, 98, CR>>}
\* delimiters at the front of x up to and with a line feed: [x, term]
RECURSIVE SkipDelims(_)
SkipDelims(x) == IF x = <<>> \/ ~Delim(Head(x)) THEN [x |-> x, term |-> FALSE]
                 ELSE IF Head(x) = LF THEN [x |-> Tail(x), term |-> TRUE] ELSE SkipDelims(Tail(x))
RECURSIVE TextEnd(_)
TextEnd(x) == IF x = <<>> \/ Delim(Head(x)) THEN 0 ELSE 1 + TextEnd(Tail(x))
\* one take_some: [x: what is left of the chunk, c: the packet's contents, more: what it returned]
TakeSome(c, x) ==
    IF x = <<>> THEN [x |-> x, c |-> c, more |-> FALSE] ELSE
    LET s == SkipDelims(x) IN
    IF s.term THEN [x |-> s.x, c |-> c, more |-> TRUE]
    ELSE IF Len(s.x) # Len(x) /\ c # <<>> THEN [x |-> s.x, c |-> c, more |-> TRUE]
    ELSE IF s.x = <<>> THEN [x |-> s.x, c |-> c, more |-> FALSE]
    ELSE LET n == TextEnd(s.x) t == SkipDelims(SubSeq(s.x, n + 1, Len(s.x))) IN
         [x |-> t.x, c |-> c \o SubSeq(s.x, 1, n), more |-> t.term \/ n # Len(s.x)]
\* the receiver's loop over a chunk: [c, out]
RECURSIVE TakeAll(_, _, _)
TakeAll(c, x, out) == LET r == TakeSome(c, x) IN
    IF ~r.more THEN [c |-> r.c, out |-> out] ELSE IF r.c = <<>> THEN TakeAll(<<>>, r.x, out) ELSE TakeAll(<<>>, r.x, Append(out, r.c))
Init == e = NewEnd /\ wire = <<>> /\ rest = <<>> /\ arrived = <<>> /\ started = <<>> /\ made = 0 /\ budget = Sends 
StartNow(x) == LET r == Start(x) IN e' = r.e /\ wire' = wire \o r.wire /\ started' = started \o r.wire
Open == e.st = "idle" /\ made < Connections /\ e' = [e EXCEPT !.st = "opening"] /\ made' = made + 1
        /\ wire' = <<>> /\ rest' = <<>> /\ arrived' = <<>> /\ started' = <<>> /\ UNCHANGED <<budget>>
Connect == e.st = "opening" /\ StartNow([e EXCEPT !.st = "conn"]) /\ UNCHANGED <<rest, arrived, made, budget>>
Fail == e.st = "opening" /\ e' = [e EXCEPT !.st = "failed"] /\ UNCHANGED <<wire, rest, arrived, started, made, budget>>
Send(x, hi) == budget > 0 /\ budget' = budget - 1 /\ StartNow(Queue(e, x, hi)) /\ UNCHANGED <<rest, arrived, made>>
Written == e.st = "conn" /\ e.busy /\ StartNow(Sent(e)) /\ UNCHANGED <<rest, arrived, made, budget>>
Read(n) == n <= Len(wire) /\ wire' = SubSeq(wire, n + 1, Len(wire))
           /\ LET r == TakeAll(rest, SubSeq(wire, 1, n), <<>>) IN rest' = r.c /\ arrived' = arrived \o r.out
           /\ UNCHANGED <<e, started, made, budget>>
Close == e.st # "idle" /\ e' = Closed(e) /\ UNCHANGED <<wire, rest, arrived, started, made, budget>>
Next == Open \/ Connect \/ Fail \/ (\E x \in Texts, hi \in BOOLEAN : Send(x, hi)) \/ Written \/ (\E n \in 1..MaxChunk : Read(n)) \/ Close
Spec == Init /\ [][Next]_vars /\ WF_vars(Open) /\ WF_vars(Connect) /\ WF_vars(Written) /\ WF_vars(Read(1))
IsPrefix(a, b) == Len(a) <= Len(b) /\ SubSeq(b, 1, Len(a)) = a
RECURSIVE Concat(_)
Concat(q) == IF q = <<>> THEN <<>> ELSE Head(q) \o Concat(Tail(q))
\* what arrived and what is pending is what a reader of one single chunk would have
ChunksDoNotMatter == LET got == SubSeq(started, 1, Len(started) - Len(wire)) f == Frame(<<>>, got, <<>>) IN arrived = f.out /\ rest = f.rest
\* everything that was sent arrives
AllArrives == wire = <<>> => arrived = Frame(<<>>, started, <<>>).out
FreshStart == e.st = "opening" => started = <<>> /\ arrived = <<>> /\ rest = <<>> /\ wire = <<>> /\ ~e.busy
NeverIdle == e.st = "conn" /\ e.q # <<>> => e.busy
Waits == e.st \in {"idle", "opening", "failed"} => ~e.busy
\* a packet of high priority overtakes what waits, not what is on its way; the others keep their order
Order == [][\/ e'.q \in {e.q, <<>>} \/ (e.q # <<>> /\ e'.q = Tail(e.q))
            \/ \E x \in Texts : e'.q = Append(e.q, x) \/ e'.q = <<x>> \o e.q]_vars
\* while it is connected everything queued gets sent
Flows == (e.st = "conn" /\ ~Under(e)) ~> (e.st # "conn" \/ Under(e))
================================================================================
