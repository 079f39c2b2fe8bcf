------------------------------ MODULE XmlTrace ------------------------------
(* Recorded reads, edits, lookups and writes of XML documents against XmlDoc. *)
EXTENDS TraceBase
VARIABLES doc, strip, known     \* the document; whether white space is stripped; whether its content is specified
vars == <<l, doc, strip, known>>
X == INSTANCE XmlDoc
SetOf(s) == {s[i] : i \in DOMAIN s}
Tree(t) == [i \in DOMAIN t |-> <<t[i][1], t[i][2], t[i][3], SetOf(t[i][4])>>]
ReadOk(e, r) ==
    /\ r.v = "good" => e.ok /\ ~e.err /\ Tree(e.tree) = r.nodes
    /\ r.v = "bad" => ~e.ok \/ e.err
    /\ e.ok = (\E i \in DOMAIN e.tree : e.tree[i][1] = "e" /\ e.tree[i][2] = 1)
Edit(e, d) == doc' = d /\ Tree(e.tree) = d /\ UNCHANGED <<strip, known>>
KindsOf(mask) == {m[2] : m \in {x \in {<<2, "e">>, <<4, "t">>, <<8, "c">>, <<16, "d">>, <<32, "x">>, <<64, "y">>} : (mask \div x[1]) % 2 = 1}}
LookOk(e) ==
    /\ \A i \in DOMAIN e.masks : e.kids[i] = X!OfKind(doc, e.p, KindsOf(e.masks[i])) /\ e.sdik[i] = X!Reverse(e.kids[i])
    /\ e.none = (X!Kids(doc, e.p) = <<>>)
    /\ e.found = [i \in DOMAIN e.names |-> X!Find(doc, e.p, e.names[i])]
    /\ e.root = X!HasRoot(doc)
    /\ (e.p # 0 /\ doc[e.p][1] = "e") =>
         /\ e.elems = X!OfKind(doc, e.p, {"e"}) /\ e.smele = X!Reverse(e.elems) /\ e.text = X!TextOf(doc, e.p)
         /\ \A i \in DOMAIN e.attrs : e.has[i] = X!Has(doc, e.p, e.attrs[i]) /\ e.value[i] = X!ValueOf(doc, e.p, e.attrs[i])
         /\ \A i \in 1..(Len(e.attrs) - 1) : e.either[i] = X!ValueOf(doc, e.p, IF X!Has(doc, e.p, e.attrs[i]) THEN e.attrs[i] ELSE e.attrs[i + 1])
TInit == l = 1 /\ doc = <<>> /\ strip = FALSE /\ known = FALSE
Next ==
    \/ IsEvent("parse") /\ (LET r == X!Read(Ev.t, Ev.strip) IN ReadOk(Ev, r)) /\ UNCHANGED <<doc, strip, known>>
    \/ IsEvent("read") /\ (LET r == X!Read(Ev.t, strip) IN ReadOk(Ev, r) /\ known' = (r.v = "good") /\ doc' = IF r.v = "good" THEN r.nodes ELSE <<>>) /\ UNCHANGED strip
    \/ IsEvent("new") /\ doc' = <<>> /\ Ev.tree = <<>> /\ strip' = Ev.strip /\ known' = TRUE
    \/ IsEvent("reset") /\ doc' = <<>> /\ Ev.tree = <<>> /\ known' = TRUE /\ UNCHANGED strip
    \* p: node, 0 the document; c: position among its children; at: the node which results
    \/ IsEvent("element") /\ known /\ Ev.at = X!Place(doc, Ev.p, Ev.c) /\ Edit(Ev, X!Put(doc, Ev.p, Ev.c, "e", Ev.name))
    \/ IsEvent("text") /\ known /\ Edit(Ev, X!Put(doc, Ev.p, Len(X!Kids(doc, Ev.p)), "t", Ev.x))
    \/ IsEvent("comment") /\ known /\ Edit(Ev, X!Put(doc, Ev.p, Ev.c, "c", Ev.x))
    \/ IsEvent("ensure") /\ known /\ (LET f == X!Find(doc, Ev.p, Ev.name) n == Len(X!Kids(doc, Ev.p)) IN
            Ev.at = (IF f # 0 THEN f ELSE X!Place(doc, Ev.p, n)) /\ Edit(Ev, IF f # 0 THEN doc ELSE X!Put(doc, Ev.p, n, "e", Ev.name)))
    \/ IsEvent("root") /\ known /\ Edit(Ev, IF X!HasRoot(doc) THEN doc ELSE X!Put(doc, 0, Len(X!Kids(doc, 0)), "e", <<>>))
    \/ IsEvent("erase") /\ known /\ Edit(Ev, X!Erase(doc, Ev.p))
    \/ IsEvent("clear") /\ known /\ Edit(Ev, X!Clear(doc, Ev.p))
    \/ IsEvent("content") /\ known /\ Edit(Ev, [doc EXCEPT ![Ev.p][3] = Ev.x])
    \/ IsEvent("attribute") /\ known /\ Edit(Ev, X!Attribute(doc, Ev.p, Ev.name, Ev.x))
    \/ IsEvent("unset") /\ known /\ Edit(Ev, X!NoAttribute(doc, Ev.p, Ev.name))
    \/ IsEvent("look") /\ known /\ LookOk(Ev) /\ UNCHANGED <<doc, strip, known>>
    \/ /\ IsEvent("write") /\ known /\ X!HasRoot(doc) /\ UNCHANGED <<doc, strip, known>>
       /\ Ev.ok /\ LET r == X!Read(Ev.t, FALSE) IN r.v = "good" /\ X!Same(r.nodes, strip) = X!Same(doc, strip)
Spec == TInit /\ [][Next]_vars
=============================================================================
