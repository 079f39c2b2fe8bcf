------------------------------- MODULE XmlDoc -------------------------------
(* XML documents. A document is the sequence of its nodes in document order, each
   <<kind, depth, name or content, attributes>>: "e"lement, "t"ext, "c"omment, "d"eclaration, C"x"DATA, "y" DTD.
   Texts and names are sequences of character codes, attributes a set of <<name, value>>.
   Read says what a text means; it is Good (with its nodes), Bad (an error must be reported) or Unspecified. *)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt
WS == {9, 10, 13, 32}
Quotes == {34, 39}
Letters == (65..90) \cup (97..122) \cup {95, 58} \cup (128..255)
NameChars == Letters \cup (48..57) \cup {45, 46}
Blank(s) == \A i \in DOMAIN s : s[i] \in WS
Trim(s) ==
    LET lo == FoldLeft(LAMBDA a, c : IF a.in /\ c \in WS THEN [a EXCEPT !.n = @ + 1] ELSE [a EXCEPT !.in = FALSE], [n |-> 0, in |-> TRUE], s).n
        hi == FoldLeft(LAMBDA a, c : [i |-> a.i + 1, last |-> IF c \in WS THEN a.last ELSE a.i + 1], [i |-> 0, last |-> 0], s).last
    IN SubSeq(s, lo + 1, hi)
\* white space stripped: none at the ends, one space elsewhere
Collapse(s) == FoldLeft(LAMBDA a, c : IF c \notin WS THEN Append(a, c) ELSE IF a[Len(a)] = 32 THEN a ELSE Append(a, 32), <<>>, Trim(s))

--------------------------------------------------------------------------
(* Entities *)
Entity(n) ==
    CASE n = <<97, 109, 112>> -> 38 [] n = <<108, 116>> -> 60 [] n = <<103, 116>> -> 62
      [] n = <<97, 112, 111, 115>> -> 39 [] n = <<113, 117, 111, 116>> -> 34 [] OTHER -> -1
Digit(c, base) == IF c \in 48..57 THEN c - 48 ELSE IF base = 16 /\ c \in 65..70 THEN c - 55 ELSE IF base = 16 /\ c \in 97..102 THEN c - 87 ELSE -1
Number(s, base) == IF s = <<>> THEN -1 ELSE FoldLeft(LAMBDA a, c : IF a < 0 \/ a > 1000 \/ Digit(c, base) < 0 THEN -1 ELSE (a * base) + Digit(c, base), 0, s)
\* the character a reference stands for; -1 if that is not specified
Referenced(n) ==
    IF n # <<>> /\ n[1] = 35
    THEN LET v == IF Len(n) > 1 /\ n[2] = 120 THEN Number(SubSeq(n, 3, Len(n)), 16) ELSE Number(SubSeq(n, 2, Len(n)), 10)
         IN IF v \in 1..127 THEN v ELSE -1
    ELSE Entity(n)
Decode(s) ==
    IF \A i \in DOMAIN s : s[i] # 38 THEN [ok |-> TRUE, s |-> s]
    ELSE LET r == FoldLeft(LAMBDA a, c :
                    IF ~a.in THEN IF c = 38 THEN [a EXCEPT !.in = TRUE, !.n = <<>>] ELSE [a EXCEPT !.s = Append(@, c)]
                    ELSE IF c # 59 THEN [a EXCEPT !.n = Append(@, c)]
                    ELSE LET v == Referenced(a.n) IN [a EXCEPT !.in = FALSE, !.ok = @ /\ v # -1, !.s = Append(@, v)],
                    [ok |-> TRUE, s |-> <<>>, in |-> FALSE, n |-> <<>>], s)
         IN [ok |-> r.ok /\ ~r.in, s |-> r.s]
Encode(s) == FoldLeft(LAMBDA a, c :
    a \o (CASE c = 38 -> <<38, 97, 109, 112, 59>> [] c = 60 -> <<38, 108, 116, 59>> [] c = 62 -> <<38, 103, 116, 59>>
            [] c = 39 -> <<38, 97, 112, 111, 115, 59>> [] c = 34 -> <<38, 113, 117, 111, 116, 59>> [] OTHER -> <<c>>), <<>>, s)

--------------------------------------------------------------------------
(* Reading: one character at a time *)
Node(k, depth, x) == <<k, depth, x, {}>>
Start == [v |-> "ok", m |-> "text", buf |-> <<>>, nodes |-> <<>>, open |-> <<>>, attrs |-> {}, name |-> <<>>, an |-> <<>>, q |-> 0, nest |-> 0]
Bad(s) == [s EXCEPT !.v = "bad"]
Open(s) == [s EXCEPT !.v = "open"]      \* not specified
Go(s, m) == [s EXCEPT !.m = m, !.buf = <<>>]
Keep(s, c) == [s EXCEPT !.buf = Append(@, c)]
Add(s, k, x) == [Go(s, "text") EXCEPT !.nodes = Append(@, Node(k, Len(s.open) + 1, x))]
HasRoot(n) == \E i \in DOMAIN n : n[i][1] = "e" /\ n[i][2] = 1
EndsWith(b, t) == Len(b) >= Len(t) /\ SubSeq(b, Len(b) - Len(t) + 1, Len(b)) = t
Chop(b, n) == SubSeq(b, 1, Len(b) - n)
Text(s, strip) ==
    IF Blank(s.buf) THEN Go(s, "lt")
    ELSE IF s.open = <<>> THEN Open(s)
    ELSE LET d == Decode(IF strip THEN Collapse(s.buf) ELSE s.buf) IN IF d.ok THEN [Add(s, "t", d.s) EXCEPT !.m = "lt"] ELSE Open(s)
\* the '>' of a start tag
Enter(s, empty) ==
    IF s.open = <<>> /\ HasRoot(s.nodes) THEN Bad(s)
    ELSE LET n == <<"e", Len(s.open) + 1, s.name, s.attrs>>
         IN [Go(s, "text") EXCEPT !.nodes = Append(@, n), !.open = IF empty THEN @ ELSE Append(@, s.name)]
Leave(s) == IF s.open # <<>> /\ s.open[Len(s.open)] = (IF s.buf # <<>> /\ s.buf[1] \in WS THEN <<>> ELSE Trim(s.buf))
            THEN [Go(s, "text") EXCEPT !.open = Chop(@, 1)] ELSE Bad(s)
Value(s, strip) ==
    LET d == Decode(s.buf) IN
    IF \E a \in s.attrs : a[1] = s.an THEN Bad(s)
    ELSE IF ~d.ok THEN Open(s) ELSE [Go(s, "after") EXCEPT !.attrs = @ \cup {<<s.an, IF strip THEN Collapse(d.s) ELSE d.s>>}]
CommentMark == <<45, 45>>
CdataMark == <<91, 67, 68, 65, 84, 65, 91>>
DtdMark == <<68, 79, 67, 84, 89, 80, 69>>
Prefix(b, t) == Len(b) <= Len(t) /\ SubSeq(t, 1, Len(b)) = b
Step(s, c, strip) ==
    CASE s.v # "ok" -> s
      [] s.m = "text" -> IF c = 60 THEN Text(s, strip) ELSE IF c = 62 /\ EndsWith(s.buf, <<93, 93>>) THEN Open(s) ELSE Keep(s, c)
      [] s.m = "lt" ->
            IF c = 47 THEN Go(s, "close") ELSE IF c = 33 THEN Go(s, "bang") ELSE IF c = 63 THEN Go(s, "decl")
            ELSE IF c = 62 THEN Bad(s) ELSE IF c \in Letters THEN Keep([s EXCEPT !.m = "name", !.buf = <<>>, !.attrs = {}], c) ELSE Open(s)
      [] s.m = "name" ->
            IF c \in WS THEN Go([s EXCEPT !.name = s.buf], "tag") ELSE IF c = 47 THEN Go([s EXCEPT !.name = s.buf], "slash")
            ELSE IF c = 62 THEN Enter([s EXCEPT !.name = s.buf], FALSE) ELSE IF c \in {60, 61} \cup Quotes THEN Bad(s)
            ELSE IF c \in NameChars THEN Keep(s, c) ELSE Open(s)
      [] s.m = "tag" ->
            IF c \in WS THEN s ELSE IF c = 47 THEN Go(s, "slash") ELSE IF c = 62 THEN Enter(s, FALSE)
            ELSE IF c \in {60, 61} \cup Quotes THEN Bad(s) ELSE IF c \in Letters THEN Keep(Go(s, "aname"), c) ELSE Open(s)
      [] s.m = "aname" ->
            IF c \in WS THEN Go([s EXCEPT !.an = s.buf], "equals") ELSE IF c = 61 THEN Go([s EXCEPT !.an = s.buf], "quote")
            ELSE IF c \in {47, 60, 62} \cup Quotes THEN Bad(s) ELSE IF c \in NameChars THEN Keep(s, c) ELSE Open(s)
      [] s.m = "equals" -> IF c \in WS THEN s ELSE IF c = 61 THEN Go(s, "quote") ELSE Bad(s)
      [] s.m = "quote" -> IF c \in WS THEN s ELSE IF c \in Quotes THEN [Go(s, "value") EXCEPT !.q = c] ELSE Bad(s)
      [] s.m = "value" -> IF c = s.q THEN Value(s, strip) ELSE IF c = 60 THEN Bad(s) ELSE Keep(s, c)
      [] s.m = "after" -> IF c \in WS THEN Go(s, "tag") ELSE IF c = 47 THEN Go(s, "slash") ELSE IF c = 62 THEN Enter(s, FALSE) ELSE Open(s)
      [] s.m = "slash" -> IF c = 62 THEN Enter(s, TRUE) ELSE Open(s)
      [] s.m = "close" -> IF c = 62 THEN Leave(s) ELSE Keep(s, c)
      [] s.m = "bang" ->
            LET b == Append(s.buf, c) IN
            IF b = CommentMark THEN Go(s, "comment")
            ELSE IF b = CdataMark THEN IF s.open = <<>> THEN Open(s) ELSE Go(s, "cdata")
            ELSE IF s.buf = DtdMark THEN IF c \in WS /\ s.open = <<>> /\ ~HasRoot(s.nodes) THEN [Keep(Go(s, "dtd"), c) EXCEPT !.nest = 1, !.q = 0] ELSE Open(s)
            ELSE IF Prefix(b, CommentMark) \/ Prefix(b, CdataMark) \/ Prefix(b, DtdMark) THEN Keep(s, c) ELSE Open(s)
      [] s.m = "comment" ->
            IF c = 62 /\ EndsWith(s.buf, CommentMark) THEN Add(s, "c", Chop(s.buf, 2)) ELSE IF EndsWith(s.buf, CommentMark) THEN Open(s) ELSE Keep(s, c)
      [] s.m = "decl" -> IF c = 62 /\ EndsWith(s.buf, <<63>>) THEN Add(s, "d", Chop(s.buf, 1)) ELSE Keep(s, c)
      [] s.m = "cdata" -> IF c = 62 /\ EndsWith(s.buf, <<93, 93>>) THEN Add(s, "x", Chop(s.buf, 2)) ELSE Keep(s, c)
      [] s.m = "dtd" ->
            IF s.q # 0 THEN IF c = s.q THEN [Keep(s, c) EXCEPT !.q = 0] ELSE IF c \in {60, 62} THEN Open(s) ELSE Keep(s, c)
            ELSE IF c \in Quotes THEN [Keep(s, c) EXCEPT !.q = c] ELSE IF c = 60 THEN [Keep(s, c) EXCEPT !.nest = @ + 1]
            ELSE IF c # 62 THEN Keep(s, c) ELSE IF s.nest = 1 THEN Add(s, "y", s.buf) ELSE [Keep(s, c) EXCEPT !.nest = @ - 1]
Read(t, strip) ==
    LET s == FoldLeft(LAMBDA a, c : Step(a, c, strip), Start, t)
        v == IF s.v # "ok" THEN s.v ELSE IF s.m # "text" \/ s.open # <<>> \/ ~HasRoot(s.nodes) THEN "bad" ELSE IF Blank(s.buf) THEN "good" ELSE "open"
    IN [v |-> v, nodes |-> s.nodes]

--------------------------------------------------------------------------
(* Writing lays elements, comments and the like out on lines of their own, which adds white space next to them.
   What is the same after writing and reading: texts next to each other joined, white space next to other nodes ignored. *)
IsText(n) == n[1] = "t"
Joined(d, sep) == FoldLeft(LAMBDA a, n : IF IsText(n) /\ a # <<>> /\ IsText(a[Len(a)]) /\ a[Len(a)][2] = n[2] THEN [a EXCEPT ![Len(a)][3] = @ \o sep \o n[3]] ELSE Append(a, n), <<>>, d)
Same(d, strip) ==
    LET j == Joined(d, IF strip THEN <<32>> ELSE <<>>)
        alone(i) == i > 1 /\ j[i - 1][2] = j[i][2] - 1 /\ (i = Len(j) \/ j[i + 1][2] < j[i][2])
        trimmed == [i \in DOMAIN j |-> IF ~IsText(j[i]) THEN j[i] ELSE IF strip THEN [j[i] EXCEPT ![3] = Collapse(@)] ELSE IF alone(i) THEN j[i] ELSE [j[i] EXCEPT ![3] = Trim(@)]]
    IN SelectSeq(trimmed, LAMBDA n : ~(IsText(n) /\ Blank(n[3])))

--------------------------------------------------------------------------
(* Structure: node 0 is the document *)
Depth(d, p) == IF p = 0 THEN 0 ELSE d[p][2]
LastOf(d, p) == IF p = 0 THEN Len(d) ELSE LET S == {i \in p..Len(d) : i > p /\ d[i][2] <= d[p][2]} IN IF S = {} THEN Len(d) ELSE (CHOOSE i \in S : \A j \in S : i <= j) - 1
Kids(d, p) == SelectSeq([i \in 1..Len(d) |-> i], LAMBDA i : i > p /\ i <= LastOf(d, p) /\ d[i][2] = Depth(d, p) + 1)
\* a node put before child c + 1 of p, or at the end
Place(d, p, c) == LET K == Kids(d, p) IN IF c = Len(K) THEN LastOf(d, p) + 1 ELSE K[c + 1]
Put(d, p, c, k, x) == LET at == Place(d, p, c) IN SubSeq(d, 1, at - 1) \o <<Node(k, Depth(d, p) + 1, x)>> \o SubSeq(d, at, Len(d))
Erase(d, p) == SubSeq(d, 1, p - 1) \o SubSeq(d, LastOf(d, p) + 1, Len(d))
Clear(d, p) == SubSeq(d, 1, p) \o SubSeq(d, LastOf(d, p) + 1, Len(d))
Attribute(d, p, n, x) == [d EXCEPT ![p][4] = {a \in @ : a[1] # n} \cup {<<n, x>>}]
NoAttribute(d, p, n) == [d EXCEPT ![p][4] = {a \in @ : a[1] # n}]
Has(d, p, n) == \E a \in d[p][4] : a[1] = n
ValueOf(d, p, n) == IF Has(d, p, n) THEN (CHOOSE a \in d[p][4] : a[1] = n)[2] ELSE <<>>
OfKind(d, p, kinds) == SelectSeq(Kids(d, p), LAMBDA i : d[i][1] \in kinds)
Find(d, p, n) == LET S == SelectSeq(Kids(d, p), LAMBDA i : d[i][1] = "e" /\ d[i][3] = n) IN IF S = <<>> THEN 0 ELSE S[1]
TextOf(d, p) == FoldLeft(LAMBDA a, i : a \o d[i][3], <<>>, OfKind(d, p, {"t"}))
=============================================================================
