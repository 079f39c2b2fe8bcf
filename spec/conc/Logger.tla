-------------------------------- MODULE Logger --------------------------------
(* neolib::logger::logger used by several threads. A flushed message is taken by the logger if it passes its filters at that
   moment, and is then offered to each logger it copies to. What a logger has taken waits, per thread, until it is committed
   (by the logging thread, or by whoever calls commit when there is none).
   g: loggers by id; v: what each thread streams next; c: calls in progress. *)
EXTENDS Naturals, Sequences, FiniteSets, TLC
NoCall == [op |-> "", lg |-> 0, a |-> 0, b |-> 0, todo |-> <<>>, phase |-> 0, done |-> FALSE, res |-> "", need |-> {}, thr |-> FALSE]
NewLogger(n) == [sev |-> 2, cats |-> [x \in {} |-> TRUE], copies |-> <<>>, thr |-> FALSE, pend |-> [t \in 1..n |-> <<>>], line |-> 1, alive |-> TRUE]
Waiting(x) == UNION {{x.pend[t][i].id : i \in DOMAIN x.pend[t]} : t \in DOMAIN x.pend}
Passes(x, s, k) == s >= x.sev /\ (IF k \in DOMAIN x.cats THEN x.cats[k] ELSE TRUE)
Take(x, t, id) == [x EXCEPT !.pend[t] = Append(@, [id |-> id, line |-> x.line]), !.line = @ + 1]
SetCat(x, k, b) == [x EXCEPT !.cats = [y \in DOMAIN @ \cup {k} |-> IF y = k THEN b ELSE @[y]]]
ChangeCat(x, k, b) == IF k \in DOMAIN x.cats THEN SetCat(x, k, b) ELSE x
Without(s, e) == SelectSeq(s, LAMBDA y : y # e)
Group(g, i) == {i} \cup {g[i].copies[j] : j \in DOMAIN g[i].copies}
\* several loggers are changed one after the other: todo
\* fmt: loggers with a formatter, whose use tells (by an event of its own) that and when a message is taken
Offered(g, c, t) == LET e == c[t] IN IF e.phase = 0 THEN e.lg ELSE Head(e.todo)
Formats(g, v, c, t, i, id, line) == c[t].op = "flush" /\ ~c[t].done /\ Offered(g, c, t) = i /\ c[t].a = id /\ g[i].line = line /\ Passes(g[i], v[t][i].sev, v[t][i].cat)
Effects(g, v, c, t, fmt) ==
    LET e == c[t]
        Ret(h, u, r) == <<h, u, [c EXCEPT ![t].done = TRUE, ![t].res = r]>>
        Each(h, u, todo) == <<h, u, [c EXCEPT ![t].phase = 1, ![t].todo = todo, ![t].done = (todo = <<>>), ![t].res = "ok"]>>
        i == IF e.phase = 0 THEN e.lg ELSE Head(e.todo)
        rest == IF e.phase = 0 THEN g[i].copies ELSE Tail(e.todo)
    IN IF e.op = "" \/ e.done THEN {} ELSE
       CASE e.op = "sev" -> {Ret(g, [v EXCEPT ![t] = [j \in DOMAIN @ |-> IF j \in Group(g, e.lg) THEN [@[j] EXCEPT !.sev = e.a] ELSE @[j]]], "ok")}
         [] e.op = "cat" -> {Ret(g, [v EXCEPT ![t] = [j \in DOMAIN @ |-> IF j \in Group(g, e.lg) THEN [@[j] EXCEPT !.cat = e.a] ELSE @[j]]], "ok")}
         [] e.op = "flush" -> IF fmt[i] /\ Passes(g[i], v[t][i].sev, v[t][i].cat) THEN {} ELSE {Each(IF Passes(g[i], v[t][i].sev, v[t][i].cat) THEN [g EXCEPT ![i] = Take(@, t, e.a)] ELSE g, v, rest)}
         [] e.op = "filter" -> {Ret([g EXCEPT ![e.lg].sev = e.a], v, "ok")}
         [] e.op = "register" -> {Each([g EXCEPT ![i] = SetCat(@, e.a, TRUE)], v, rest)}
         [] e.op = "enable" -> {Each([g EXCEPT ![i] = ChangeCat(@, e.a, TRUE)], v, rest)}
         [] e.op = "disable" -> {Each([g EXCEPT ![i] = ChangeCat(@, e.a, FALSE)], v, rest)}
         [] e.op = "copy" -> {Ret([g EXCEPT ![e.lg].copies = Append(@, e.a)], v, "ok")}
         [] e.op = "uncopy" -> {Ret([g EXCEPT ![e.lg].copies = Without(@, e.a)], v, "ok")}
         [] e.op = "thread" -> {IF g[e.lg].thr THEN Ret(g, v, "already") ELSE Ret([g EXCEPT ![e.lg].thr = TRUE], v, "ok")}
         [] e.op = "line" -> {Ret(g, v, ToString(g[e.lg].line))}
         [] e.op = "filter?" -> {Ret(g, v, ToString(g[e.lg].sev))}
         [] e.op = "enabled?" -> {Ret(g, v, IF e.a \in DOMAIN g[e.lg].cats /\ g[e.lg].cats[e.a] THEN "true" ELSE "false")}
         [] e.op = "thread?" -> {Ret(g, v, IF g[e.lg].thr THEN "true" ELSE "false")}
         \* what was waiting when the call was made has been written when it returns
         [] e.op = "wait" -> IF e.thr /\ e.need \cap Waiting(g[e.lg]) # {} THEN {} ELSE {Ret(g, v, "ok")}
         [] e.op = "commit" -> IF ~g[e.lg].thr /\ e.need \cap Waiting(g[e.lg]) # {} THEN {} ELSE {Ret(g, v, "ok")}
         [] e.op = "finalize" -> IF Waiting(g[e.lg]) # {} THEN {} ELSE {Ret([g EXCEPT ![e.lg].thr = FALSE], v, "ok")}
         [] e.op = "destroy" -> IF Waiting(g[e.lg]) # {} THEN {} ELSE {Ret([g EXCEPT ![e.lg].alive = FALSE], v, "ok")}
         [] OTHER -> {}
TakeFormatted(g, c, t) ==
    LET e == c[t]
        i == Offered(g, c, t)
        rest == IF e.phase = 0 THEN g[i].copies ELSE Tail(e.todo)
    IN <<[g EXCEPT ![i] = Take(@, t, e.a)], [c EXCEPT ![t].phase = 1, ![t].todo = rest, ![t].done = (rest = <<>>), ![t].res = "ok"]>>
\* a write takes, of each thread, the oldest messages, in order; fmt: with their line numbers
Of(items, t) == SelectSeq(items, LAMBDA y : y.id \div 100 = t)
Same(a, b, fmt) == Len(a) <= Len(b) /\ \A j \in DOMAIN a : a[j].id = b[j].id /\ (fmt => a[j].line = b[j].line)
CanWrite(x, items, fmt) == x.alive /\ \A t \in DOMAIN x.pend : Same(Of(items, t), x.pend[t], fmt)
Write(x, items) == [x EXCEPT !.pend = [t \in DOMAIN @ |-> SubSeq(@[t], 1 + Len(Of(items, t)), Len(@[t]))]]
===============================================================================
