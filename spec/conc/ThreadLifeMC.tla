---------------------------- MODULE ThreadLifeMC ----------------------------
(* Every interleaving of owners' calls with the thread's own procedure. *)
EXTENDS ThreadLife, TLC
CONSTANTS Callers, Calls, Others, Attach, Fail
VARIABLES o, c, q, left, ran
vars == <<o, c, q, left, ran>>
P == 0                        \* the procedure
All == Callers \cup {P}
Init == o = Fresh(Attach, Fail) /\ c = [t \in All |-> Idle] /\ q = FALSE /\ left = [t \in All |-> IF t = 1 THEN Calls ELSE Others] /\ ran = 0
Own(t) == t = P
Ops == {"state", "start", "abort", "cancel", "wait", "waitlist", "msgwait", "signal", "block"}
Call(t) == c[t] = Idle /\ left[t] > 0 /\ (t = P => o.life = "in") /\ UNCHANGED <<o, q, ran>> /\ left' = [left EXCEPT ![t] = @ - 1]
           /\ \E op \in Ops, w \in BOOLEAN : c' = [c EXCEPT ![t] = [Idle EXCEPT !.op = op, !.w = w, !.seen = IF op \in Queries THEN {o.st} ELSE {}]]
Step == \E r \in Procedure(o, c) \cup UNION {Effects(o, c, t, Own(t), q) : t \in All} : o' = r[1] /\ c' = r[2] /\ UNCHANGED <<q, left, ran>>
Return(t) == Answers(o, c, t, Own(t)) # {} /\ c' = [c EXCEPT ![t] = Idle] /\ UNCHANGED <<o, q, ran>> /\ left' = (IF t = P /\ c[t].res = "cancel" THEN [left EXCEPT ![t] = 0] ELSE left)
DoBegin == CanBegin(o) /\ o' = Begin(o) /\ ran' = ran + 1 /\ UNCHANGED <<c, q, left>>
DoEnd == CanEnd(o) /\ c[P] = Idle /\ o' = Ends(o) /\ UNCHANGED <<c, q, left, ran>>
Post == ~q /\ q' = TRUE /\ UNCHANGED <<o, c, left, ran>>
Next == Step \/ DoBegin \/ DoEnd \/ Post \/ \E t \in All : Call(t) \/ Return(t)
Spec == Init /\ [][Next]_vars /\ WF_vars(Step) /\ WF_vars(DoBegin) /\ WF_vars(DoEnd) /\ \A t \in All : WF_vars(Return(t))
Once == ran <= 1
\* what is reported agrees with what happened
Truth == /\ (o.st \in {"ReadyToStart", "Error"} => o.life = "none")
         /\ (o.life \in {"entered", "in", "out"} => o.st \in {"Started", "Aborted", "Cancelled"})
         /\ (o.st = "Finished" => o.life = "gone")
         /\ (o.st = "Started" => o.life \in {"entered", "in", "out"})
         /\ (o.life = "gone" => o.st \in {"Finished", "Cancelled"})
\* a wait ended by the thread, and an abort that waited, return only after the procedure
Waited == \A t \in Callers : c[t].done /\ ((c[t].op = "wait" /\ c[t].res = "ok") \/ c[t].res = "waitable" \/ (c[t].op \in {"abort", "cancel"} /\ c[t].phase = 1)) => o.life = "gone"
\* an ended state is final, except that an abort becomes the end it brings about
Final == [][o.st \in {"Finished", "Cancelled", "Error"} => o'.st = o.st]_vars
\* a started thread ends
Ends2 == (o.life = "spawned") ~> (o.life = "gone")
=============================================================================
