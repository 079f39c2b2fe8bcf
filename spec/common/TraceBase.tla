---------------------------- MODULE TraceBase ----------------------------
(* Shared trace-validation plumbing: the recorded trace, the cursor into it, and the acceptance
   post-condition.  Every trace specification consumes one line per step unless it says otherwise. *)
EXTENDS Naturals, Integers, Sequences, TLC, Json, IOUtils

Trace == ndJsonDeserialize(IOEnv.TRACE)

VARIABLE l      \* index of the next line of Trace to consume

Ev == Trace[l]
IsEvent(name) == l <= Len(Trace) /\ Trace[l].e = name /\ l' = l + 1

\* linear traces: one state per consumed line plus the initial state
Matched == TLCGet("stats").diameter - 1
TraceAccepted == PrintT(<<"MATCHED", Matched, Len(Trace)>>)

\* traces with silent steps: highest cursor reached, kept in register 42 by a CONSTRAINT (needs -workers 1)
TrackCursor == TLCSet(42, IF l > TLCGet(42) THEN l ELSE TLCGet(42))
InitCursor == TLCSet(42, 0)
TraceAcceptedSilent == PrintT(<<"MATCHED", TLCGet(42) - 1, Len(Trace)>>)
=============================================================================
