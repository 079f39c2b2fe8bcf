------------------------------- MODULE JsonMC -------------------------------
(* Laws of JsonDoc, over every token sequence up to MaxTokens and every document reachable by MaxEdits edits. *)
EXTENDS JsonDoc
CONSTANTS Mode, MaxTokens, MaxEdits, MaxNodes
VARIABLES toks, doc, n
vars == <<toks, doc, n>>

A == <<97>>
B == <<98>>
Tokens == { <<123>>, <<125>>, <<91>>, <<93>>, <<44>>, <<58>>, <<34, 97, 34>>, <<45, 49>>, <<48>>, <<46>>, True, A, <<32>>, <<47, 42, 34, 42, 47>> }
RECURSIVE Flat(_)
Flat(ss) == IF ss = <<>> THEN <<>> ELSE Head(ss) \o Flat(Tail(ss))

Leaf == { Node("t", <<>>, <<>>), Node("n", <<49, 46, 53, 48>>, <<>>), Node("s", <<34, 1, 92>>, <<>>), Node("o", <<>>, <<>>), Node("a", <<>>, <<>>) }
RECURSIVE Count(_)
Count(x) == Len(Preorder(x))
Composite(x) == x.k \in {"o", "a"}
RECURSIVE Paths(_)
Paths(x) == {<<>>} \cup UNION {{<<i>> \o p : p \in Paths(x.c[i])} : i \in DOMAIN x.c}

Init == toks = <<>> /\ n = 0 /\ doc \in (IF Mode = "edits" THEN {Node("o", <<>>, <<>>), Node("a", <<>>, <<>>)} ELSE {Node("z", <<>>, <<>>)})
MoreText == Mode = "texts" /\ Len(toks) < MaxTokens /\ (\E t \in Tokens : toks' = Append(toks, t)) /\ UNCHANGED <<doc, n>>
Add(p) == LET x == Get(doc, p) IN Composite(x) /\ (\E y \in Leaf : \E k \in {A, <<34, 10>>} :
            doc' = Put(doc, p, Added(x, IF x.k = "o" THEN Named(y, "s", k) ELSE y)))
Edits == Mode = "edits" /\ n < MaxEdits /\ n' = n + 1 /\ UNCHANGED toks /\ (\E p \in Paths(doc) : LET x == Get(doc, p) IN
            \/ (Count(doc) < MaxNodes /\ Add(p))
            \/ (x.c # <<>> /\ doc' = Put(doc, p, Removed(x)))
            \/ (x.c # <<>> /\ doc' = Put(doc, p, Cleared(x)))
            \/ (\E y \in Leaf : doc' = Put(doc, p, Assign(x, y)))
            \/ (x.nk # "-" /\ doc' = Put(doc, p, Named(x, "s", B))))
Next == MoreText \/ Edits
Spec == Init /\ [][Next]_vars

RECURSIVE WellFormed(_)
WellFormed(x) == /\ Composite(x) \/ x.c = <<>>
                 /\ \A i \in DOMAIN x.c : (x.c[i].nk # "-") = (x.k = "o") /\ WellFormed(x.c[i])
Text1 == Flat(toks)
\* an accepted text denotes a well-formed tree, which is also what its own canonical text denotes
ParseLaw == \A bare \in BOOLEAN : LET r == Parse(Text1, bare) IN r.ok =>
    /\ WellFormed(r.v) /\ r.v.nk = "-"
    /\ LET q == Parse(Text(r.v), bare) IN q.ok /\ q.v = r.v
\* bare words only add documents; white space around a document does not matter
WordLaw == LET r == Parse(Text1, FALSE) IN (r.ok => Parse(Text1, TRUE).v = r.v) /\ (Parse(<<32>> \o Text1 \o <<10>>, FALSE).ok = r.ok)
\* a text without a comment is itself; a document cannot be continued into another one by a token
CommentLaw == ((\A i \in DOMAIN toks : toks[i][1] # 47) => Uncommented(Text1) = Text1) /\ (Uncommented(Uncommented(Text1)) = Uncommented(Text1))
PrefixLaw == LET r == Parse(Text1, FALSE) IN (r.ok /\ r.v.k \in {"o", "a", "s"}) => \A t \in Tokens \ {<<32>>} : ~ Parse(Append(Text1, t[1]), FALSE).ok
\* every document can be written and read back, and each edit changes only what it names
WriteLaw == LET r == Parse(Text(doc), FALSE) IN r.ok /\ r.v = doc /\ Same(r.v, doc)
EditLaw == WellFormed(doc) /\ (\A p \in Paths(doc) : Put(doc, p, Get(doc, p)) = doc)
LookupLaw == \A k \in {A, B} : LET r == Lookup(doc, <<k>>) IN (r = <<0>>) = (WithName(doc, k) = {}) /\ (r # <<0>> => Get(doc, r).n = k)
=============================================================================
