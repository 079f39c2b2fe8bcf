-------------------------------- MODULE Packets --------------------------------
(* Framing of delimited text (string_packet) and packet streams over a connection. A text packet ends at a carriage return or a
   line feed, wherever the bytes before it came from; nothing between two delimiters is no packet. A stream sends its queue one
   packet at a time while it is connected; a connection takes nothing with it into the next one. *)
EXTENDS Integers, Sequences, FiniteSets
CR == 13
LF == 10
Delim(b) == b = CR \/ b = LF
\* the packets that are complete in x, given what is pending before it, and what is pending after it
RECURSIVE Frame(_, _, _)
Frame(rest, x, out) ==
    IF x = <<>> THEN [out |-> out, rest |-> rest]
    ELSE IF ~Delim(Head(x)) THEN Frame(Append(rest, Head(x)), Tail(x), out)
    ELSE Frame(<<>>, Tail(x), IF rest = <<>> THEN out ELSE Append(out, rest))
\* an end of a connection. st: none (no such stream), idle, opening, failed, conn, closing. q: packets waiting, snd: the one being
\* sent (none: <<>>), in: what is on its way to it and not yet delivered
NoEnd == [st |-> "none", q |-> <<>>, busy |-> FALSE, snd |-> <<>>, out |-> <<>>, in |-> <<>>]
NewEnd == [NoEnd EXCEPT !.st = "idle"]
\* starts sending the next packet, if it can: [e, wire]
Start(e) == IF e.st = "conn" /\ ~e.busy /\ e.q # <<>> THEN [e |-> [e EXCEPT !.busy = TRUE, !.snd = Head(e.q), !.q = Tail(e.q)], wire |-> Head(e.q)]
            ELSE [e |-> e, wire |-> <<>>]
Queue(e, x, hi) == [e EXCEPT !.q = IF hi THEN <<x>> \o @ ELSE Append(@, x)]
Sent(e) == [e EXCEPT !.busy = FALSE, !.snd = <<>>]
Closed(e) == [NewEnd EXCEPT !.st = IF e.st = "none" THEN "none" ELSE "idle"]
Opened(e) == e.st \in {"opening", "failed", "conn"}
Under(e) == e.q = <<>> /\ ~e.busy
===============================================================================
