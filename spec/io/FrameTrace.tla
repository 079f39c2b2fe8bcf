------------------------------ MODULE FrameTrace ------------------------------
EXTENDS TraceBase
VARIABLE rest
T == INSTANCE Packets
Init == l = 1 /\ rest = <<>>
Next ==
    \/ IsEvent("reset") /\ rest' = <<>>
    \/ IsEvent("clear") /\ rest' = <<>>
    \/ IsEvent("copy") /\ Ev.a = rest /\ Ev.b = rest /\ Ev.c = rest /\ UNCHANGED rest
    \/ IsEvent("feed") /\ LET r == T!Frame(rest, Ev.x, <<>>) IN Ev.all /\ Ev.len /\ Ev.out = r.out /\ Ev.rest = r.rest /\ rest' = r.rest
Spec == Init /\ [][Next]_<<rest, l>>
=============================================================================
