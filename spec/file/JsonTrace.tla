------------------------------ MODULE JsonTrace ------------------------------
(* Recorded reads, edits, lookups and writes of JSON documents against Json. *)
EXTENDS TraceBase, FiniteSets
J == INSTANCE JsonDoc
VARIABLES doc, known     \* the document and whether its content is specified
vars == <<l, doc, known>>
Init == l = 1 /\ doc = J!Node("u", <<>>, <<>>) /\ known = FALSE

\* e.t was read under e.syn with verdict e.ok and tree e.tree
ReadOk(e) ==
    LET text == IF e.syn = "relaxed" THEN J!Uncommented(e.t) ELSE e.t
        r == J!Parse(text, e.syn = "std")
    IN /\ e.syn # "relaxed" => e.ok = r.ok
       /\ r.ok => e.ok
       /\ e.ok = ~ e.err
       /\ (r.ok /\ ~ J!LoneSurrogate(e.t)) => J!Same(r.v, e.tree)
Seen(e, d) == J!Same(d, e.tree) /\ J!Same(e.tree, d)
\* new: the node after the edit at e.path
Edit(e, new) == LET d == J!Put(doc, e.path, new) IN Seen(e, d) /\ doc' = e.tree /\ UNCHANGED known
Here(e) == J!Get(doc, e.path)
LookOk(e) ==
    LET x == Here(e) IN
    /\ e.size = Len(x.c) /\ e.empty = (x.c = <<>>)
    /\ x.k = "o" => \A i \in DOMAIN e.keys : LET S == J!WithName(x, e.keys[i]) IN
            e.has[i] = (S # {}) /\ (IF S = {} THEN e.at[i] = 0 ELSE e.at[i] \in S)
    /\ x.k = "a" => e.idx = [i \in DOMAIN x.c |-> i] /\ e.each = e.idx
Kinds(s) == [i \in DOMAIN s |-> s[i].k]
Filter(s) == SelectSeq(s, LAMBDA k : k # "u")
Next ==
    \/ IsEvent("parse") /\ ReadOk(Ev) /\ UNCHANGED <<doc, known>>
    \/ /\ IsEvent("read") /\ ReadOk(Ev) /\ known' = Ev.ok
       /\ doc' = IF Ev.ok THEN Ev.tree ELSE J!Node("u", <<>>, <<>>)
    \/ IsEvent("root") /\ doc' = Ev.node /\ known' = TRUE /\ Seen(Ev, Ev.node)
    \/ IsEvent("assign") /\ known /\ Edit(Ev, J!Assign(Here(Ev), Ev.node))
    \/ IsEvent("member") /\ known /\ Here(Ev).k = "o" /\
         (LET S == J!WithName(Here(Ev), Ev.key) IN
          IF S = {} THEN Ev.at = Len(Here(Ev).c) + 1 /\ Edit(Ev, J!Added(Here(Ev), J!Named(Ev.node, "s", Ev.key)))
          ELSE Ev.at \in S /\ Edit(Ev, [Here(Ev) EXCEPT !.c[Ev.at] = J!Assign(@, Ev.node)]))
    \/ IsEvent("push") /\ known /\ Ev.at = Len(Here(Ev).c) + 1 /\ Edit(Ev, J!Added(Here(Ev), Ev.node))
    \/ IsEvent("pop") /\ known /\ Here(Ev).c # <<>> /\ Edit(Ev, J!Removed(Here(Ev)))
    \/ IsEvent("clear") /\ known /\ Edit(Ev, J!Cleared(Here(Ev)))
    \/ IsEvent("name") /\ known /\ Edit(Ev, J!Named(Here(Ev), "s", Ev.key))
    \/ IsEvent("look") /\ known /\ LookOk(Ev) /\ UNCHANGED <<doc, known>>
    \/ IsEvent("path") /\ known /\ Ev.r = J!Lookup(doc, Ev.keys) /\ UNCHANGED <<doc, known>>
    \/ IsEvent("walk") /\ known /\ Ev.k = Kinds(J!Preorder(doc)) /\ Ev.visit = Filter(Ev.k) /\ UNCHANGED <<doc, known>>
    \/ /\ IsEvent("write") /\ known
       /\ LET r == J!Parse(Ev.t, TRUE) IN r.ok /\ J!Same(r.v, doc)
       /\ Ev.ok /\ J!Same(Ev.back, doc)
       /\ UNCHANGED <<doc, known>>
Spec == Init /\ [][Next]_vars
==============================================================================
