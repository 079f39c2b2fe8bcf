---------------------------- MODULE StringsTrace ----------------------------
EXTENDS TraceBase
VARIABLE st          \* the contents of the strings
S == INSTANCE Strings
Init == l = 1 /\ st = <<<<>>, <<>>, <<>>>>
Ops == {"assign", "append", "insert", "erase", "splice", "resize", "clear", "put", "replace", "read", "cmp", "qcmp", "find"}
Next == /\ l <= Len(Trace) /\ l' = l + 1
        /\ IF Ev.e = "reset" THEN st' = <<<<>>, <<>>, <<>>>>
           ELSE IF Ev.e = "swap" THEN st' = <<st[2], st[1], st[3]>> /\ Ev.s = st'
           ELSE /\ Ev.e \in Ops
                /\ S!Result(st[Ev.t + 1], st, Ev)
                /\ st' = [st EXCEPT ![Ev.t + 1] = S!After(@, Ev)]
                /\ Ev.s = st'
Spec == Init /\ [][Next]_<<st, l>>
=============================================================================
