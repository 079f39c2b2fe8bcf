------------------------------ MODULE LoggerMC ------------------------------
(* Threads logging to a logger that copies to another while filters, copies and the logging thread change; somebody commits. *)
EXTENDS Logger
CONSTANTS Threads, Calls, Ops
VARIABLES g, v, c, left, out, passed
vars == <<g, v, c, left, out, passed>>
L == {1, 2}
N == Cardinality(Threads)
NoFmt == [i \in L |-> FALSE]
Init == g = [i \in L |-> IF i = 1 THEN [NewLogger(N) EXCEPT !.copies = <<2>>] ELSE NewLogger(N)] /\ v = [t \in Threads |-> [i \in L |-> [sev |-> 2, cat |-> 0]]]
        /\ c = [t \in Threads |-> NoCall] /\ left = [t \in Threads |-> Calls] /\ out = [i \in L |-> <<>>] /\ passed = [i \in L |-> {}]
Args(op) == CASE op \in {"sev", "filter"} -> {1, 3} [] op \in {"cat", "register", "disable", "enable"} -> {0} [] op \in {"copy", "uncopy"} -> {2} [] OTHER -> {0}
Call(t) == c[t] = NoCall /\ left[t] > 0 /\ left' = [left EXCEPT ![t] = @ - 1] /\ UNCHANGED <<g, v, out, passed>>
           /\ \E op \in Ops, i \in L : \E a \in Args(op) :
              /\ (op \in {"copy", "uncopy"} => i = 1) /\ (op = "flush" => i = 1)
              /\ c' = [c EXCEPT ![t] = [NoCall EXCEPT !.op = op, !.lg = i, !.a = IF op = "flush" THEN t * 100 + (Calls - left[t]) ELSE a, !.need = Waiting(g[i]), !.thr = g[i].thr]]
Effect(t) == \E r \in Effects(g, v, c, t, NoFmt) : g' = r[1] /\ v' = r[2] /\ c' = r[3] /\ UNCHANGED <<left, out>>
             /\ passed' = [i \in L |-> passed[i] \cup Waiting(r[1][i])]
Return(t) == c[t].done /\ c' = [c EXCEPT ![t] = NoCall] /\ UNCHANGED <<g, v, left, out, passed>>
RECURSIVE Flat(_, _)
Flat(x, t) == IF t > N THEN <<>> ELSE x.pend[t] \o Flat(x, t + 1)
Writing(i) == g[i].thr \/ \E t \in Threads : c[t].op \in {"commit", "destroy", "finalize"} /\ c[t].lg = i /\ ~c[t].done
DoWrite(i) == Writing(i) /\ Waiting(g[i]) # {} /\ (LET items == Flat(g[i], 1) IN CanWrite(g[i], items, TRUE) /\ g' = [g EXCEPT ![i] = Write(@, items)] /\ out' = [out EXCEPT ![i] = @ \o items]) /\ UNCHANGED <<v, c, left, passed>>
Next == (\E t \in Threads : Call(t) \/ Effect(t) \/ Return(t)) \/ \E i \in L : DoWrite(i)
Spec == Init /\ [][Next]_vars /\ (\A t \in Threads : WF_vars(Effect(t)) /\ WF_vars(Return(t))) /\ \A i \in L : WF_vars(DoWrite(i))
Ids(s) == {s[j].id : j \in DOMAIN s}
\* written once, in the order of each thread, with consecutive line numbers; nothing lost, nothing invented
Once == \A i \in L : \A a, b \in DOMAIN out[i] : a # b => out[i][a].line # out[i][b].line
Order == \A i \in L : \A a, b \in DOMAIN out[i] : a < b /\ out[i][a].id \div 100 = out[i][b].id \div 100 => out[i][a].line < out[i][b].line /\ out[i][a].id <= out[i][b].id
Kept == \A i \in L : passed[i] = Ids(out[i]) \cup Waiting(g[i])
Lines == \A i \in L : g[i].line = 1 + Len(out[i]) + Len(Flat(g[i], 1))
\* with a logging thread everything gets written, and waits and commits come back
Written == \A i \in L : g[i].thr ~> Waiting(g[i]) = {}
Back == \A t \in Threads : c[t] # NoCall ~> c[t] = NoCall
=============================================================================
