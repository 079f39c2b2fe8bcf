-------------------------------- MODULE JsonDoc --------------------------------
(* JSON: which texts are documents, which tree a text denotes, and what the editing operations do to a tree.
   Texts are sequences of byte codes.  A node is
     [k |-> kind, nk |-> "-" (no name) | "s" (quoted name) | "w" (bare name), n |-> name, v |-> scalar text, c |-> children]
   with kind o(bject) a(rray) s(tring) n(umber) t(rue) f(alse) z (null) w(ord) u (no value yet).             *)
EXTENDS Integers, Sequences, FiniteSets

Ws == {9, 10, 13, 32}
Digits == 48..57
Letters == (65..90) \cup (97..122)
WordStart == Letters \cup {95, 36, 64} \cup (128..255)
WordPart == WordStart \cup Digits \cup {46}
True == <<116, 114, 117, 101>>
False == <<102, 97, 108, 115, 101>>
Null == <<110, 117, 108, 108>>
Literals == {True, False, Null}

Fail == [ok |-> FALSE, p |-> 0, v |-> 0]
Good(p, v) == [ok |-> TRUE, p |-> p, v |-> v]
At(t, p) == IF p \in 1..Len(t) THEN t[p] ELSE -1
RECURSIVE RunEnd(_, _, _)
RunEnd(t, p, C) == IF At(t, p) \in C THEN RunEnd(t, p + 1, C) ELSE p   \* first position not in C
SkipWs(t, p) == RunEnd(t, p, Ws)

(* strings *)
HexVal(c) == IF c \in 48..57 THEN c - 48 ELSE IF c \in 65..70 THEN c - 55 ELSE IF c \in 97..102 THEN c - 87 ELSE -1
IsHex4(t, p) == \A i \in 0..3 : At(t, p + i) # -1 /\ HexVal(t[p + i]) >= 0
Hex4(t, p) == HexVal(t[p]) * 4096 + HexVal(t[p + 1]) * 256 + HexVal(t[p + 2]) * 16 + HexVal(t[p + 3])
Encode8(c) == IF c < 128 THEN <<c>>
              ELSE IF c < 2048 THEN <<192 + (c \div 64), 128 + (c % 64)>>
              ELSE IF c < 65536 THEN <<224 + (c \div 4096), 128 + ((c \div 64) % 64), 128 + (c % 64)>>
              ELSE <<240 + (c \div 262144), 128 + ((c \div 4096) % 64), 128 + ((c \div 64) % 64), 128 + (c % 64)>>
High(u) == u \in 55296..56319
Low(u) == u \in 56320..57343
Esc(c) == CASE c = 34 -> 34 [] c = 92 -> 92 [] c = 47 -> 47 [] c = 98 -> 8 [] c = 102 -> 12 [] c = 110 -> 10 [] c = 114 -> 13 [] c = 116 -> 9 [] OTHER -> -1
RECURSIVE Str(_, _, _)      \* p is after the opening quote
Str(t, p, acc) ==
    LET c == At(t, p) IN
    IF c < 32 THEN Fail
    ELSE IF c = 34 THEN Good(p + 1, acc)
    ELSE IF c # 92 THEN Str(t, p + 1, Append(acc, c))
    ELSE LET d == At(t, p + 1) IN
        IF Esc(d) >= 0 THEN Str(t, p + 2, Append(acc, Esc(d)))
        ELSE IF d = 117 /\ IsHex4(t, p + 2) THEN
            LET u == Hex4(t, p + 2) IN
            IF High(u) /\ At(t, p + 6) = 92 /\ At(t, p + 7) = 117 /\ IsHex4(t, p + 8) /\ Low(Hex4(t, p + 8))
            THEN Str(t, p + 12, acc \o Encode8(65536 + (u - 55296) * 1024 + (Hex4(t, p + 8) - 56320)))
            ELSE Str(t, p + 6, acc \o Encode8(u))
        ELSE Fail
\* an escaped half of a surrogate pair without its other half: what it stands for is not specified
LoneSurrogate(t) == \E p \in 1..(Len(t) - 5) :
    /\ t[p] = 92 /\ t[p + 1] = 117 /\ IsHex4(t, p + 2)
    /\ \/ High(Hex4(t, p + 2)) /\ ~ (At(t, p + 6) = 92 /\ At(t, p + 7) = 117 /\ IsHex4(t, p + 8) /\ Low(Hex4(t, p + 8)))
       \/ Low(Hex4(t, p + 2)) /\ ~ (p > 6 /\ t[p - 6] = 92 /\ t[p - 5] = 117 /\ IsHex4(t, p - 4) /\ High(Hex4(t, p - 4)))

(* numbers *)
FracEnd(t, p) == IF At(t, p) # 46 THEN p ELSE LET q == RunEnd(t, p + 1, Digits) IN IF q = p + 1 THEN 0 ELSE q
ExpEnd(t, p) == IF At(t, p) \notin {69, 101} THEN p
                ELSE LET s == IF At(t, p + 1) \in {43, 45} THEN p + 2 ELSE p + 1 IN LET q == RunEnd(t, s, Digits) IN IF q = s THEN 0 ELSE q
IntEnd(t, p) == IF At(t, p) = 48 THEN p + 1 ELSE IF At(t, p) \in Digits THEN RunEnd(t, p, Digits) ELSE 0
Num(t, p) == LET i == IntEnd(t, IF At(t, p) = 45 THEN p + 1 ELSE p) IN IF i = 0 THEN Fail ELSE
             LET f == FracEnd(t, i) IN IF f = 0 THEN Fail ELSE
             LET e == ExpEnd(t, f) IN IF e = 0 THEN Fail ELSE Good(e, SubSeq(t, p, e - 1))
\* the value of a number: sign, significant digits, power of ten of the last digit
RECURSIVE StripL(_)
StripL(d) == IF d # <<>> /\ d[1] = 48 THEN StripL(Tail(d)) ELSE d
RECURSIVE StripR(_, _)
StripR(d, e) == IF d # <<>> /\ d[Len(d)] = 48 THEN StripR(SubSeq(d, 1, Len(d) - 1), e + 1) ELSE [d |-> d, e |-> e]
RECURSIVE Dec(_, _)
Dec(d, acc) == IF d = <<>> THEN acc ELSE IF acc > 99999 THEN acc ELSE Dec(Tail(d), acc * 10 + (d[1] - 48))
Value(x) ==
    LET b == IF x[1] = 45 THEN 2 ELSE 1
        i == RunEnd(x, b, Digits)
        f == IF At(x, i) = 46 THEN RunEnd(x, i + 1, Digits) ELSE i
        es == IF f > Len(x) THEN 0 ELSE IF x[f + 1] \in {43, 45} THEN f + 2 ELSE f + 1
        e == IF es = 0 THEN 0 ELSE Dec(SubSeq(x, es, Len(x)), 0) * (IF x[es - 1] = 45 THEN -1 ELSE 1)
        r == StripR(StripL(SubSeq(x, b, i - 1) \o SubSeq(x, i + 1, f - 1)), e - (IF f > i THEN f - i - 1 ELSE 0))
    IN IF r.d = <<>> THEN [neg |-> FALSE, d |-> <<>>, e |-> 0] ELSE [neg |-> (b = 2), d |-> r.d, e |-> r.e]
\* numbers which every implementation with 64 bit integers and IEEE doubles keeps exactly (up to printing)
Integral(x) == RunEnd(x, IF x[1] = 45 THEN 2 ELSE 1, Digits) = Len(x) + 1
Exact(x) == LET v == Value(x) IN \/ Len(v.d) <= 15 /\ v.e \in -280..280
                                 \/ Integral(x) /\ Len(x) <= 19
                                 \/ x = <<49, 56, 52, 52, 54, 55, 52, 52, 48, 55, 51, 55, 48, 57, 53, 53, 49, 54, 49, 53>> \* 18446744073709551615
SameNumber(x, y) == ~ Exact(x) \/ Value(x) = Value(y)

(* values *)
Node(k, v, c) == [k |-> k, nk |-> "-", n |-> <<>>, v |-> v, c |-> c]
Named(x, nk, n) == [x EXCEPT !.nk = nk, !.n = n]
Word(t, p) == LET q == RunEnd(t, p, WordPart) IN IF At(t, p) \in WordStart THEN Good(q, SubSeq(t, p, q - 1)) ELSE Fail
WordNode(w) == IF w = True THEN Node("t", <<>>, <<>>) ELSE IF w = False THEN Node("f", <<>>, <<>>) ELSE IF w = Null THEN Node("z", <<>>, <<>>)
               ELSE Node("w", w, <<>>)
\* bare: whether words other than true, false and null are values and member names
Name(t, p, bare) ==
    IF At(t, p) = 34 THEN LET r == Str(t, p + 1, <<>>) IN IF r.ok THEN Good(r.p, <<"s", r.v>>) ELSE Fail
    ELSE LET r == Word(t, p) IN IF bare /\ r.ok /\ r.v \notin Literals THEN Good(r.p, <<"w", r.v>>) ELSE Fail
RECURSIVE Val(_, _, _)
RECURSIVE Elements(_, _, _, _)
RECURSIVE Members(_, _, _, _)
Val(t, p, bare) ==
    LET c == At(t, p) IN
    IF c = 34 THEN LET r == Str(t, p + 1, <<>>) IN IF r.ok THEN Good(r.p, Node("s", r.v, <<>>)) ELSE Fail
    ELSE IF c = 45 \/ c \in Digits THEN LET r == Num(t, p) IN IF r.ok THEN Good(r.p, Node("n", r.v, <<>>)) ELSE Fail
    ELSE IF c = 91 THEN LET q == SkipWs(t, p + 1) IN IF At(t, q) = 93 THEN Good(q + 1, Node("a", <<>>, <<>>)) ELSE Elements(t, q, <<>>, bare)
    ELSE IF c = 123 THEN LET q == SkipWs(t, p + 1) IN IF At(t, q) = 125 THEN Good(q + 1, Node("o", <<>>, <<>>)) ELSE Members(t, q, <<>>, bare)
    ELSE LET r == Word(t, p) IN IF r.ok /\ (bare \/ r.v \in Literals) THEN Good(r.p, WordNode(r.v)) ELSE Fail
Elements(t, p, acc, bare) ==
    LET r == Val(t, p, bare) IN IF ~ r.ok THEN Fail ELSE
    LET q == SkipWs(t, r.p) a == Append(acc, r.v) IN
    IF At(t, q) = 44 THEN Elements(t, SkipWs(t, q + 1), a, bare) ELSE IF At(t, q) = 93 THEN Good(q + 1, Node("a", <<>>, a)) ELSE Fail
Members(t, p, acc, bare) ==
    LET m == Name(t, p, bare) IN IF ~ m.ok THEN Fail ELSE
    LET s == SkipWs(t, m.p) IN IF At(t, s) # 58 THEN Fail ELSE
    LET r == Val(t, SkipWs(t, s + 1), bare) IN IF ~ r.ok THEN Fail ELSE
    LET q == SkipWs(t, r.p) a == Append(acc, Named(r.v, m.v[1], m.v[2])) IN
    IF At(t, q) = 44 THEN Members(t, SkipWs(t, q + 1), a, bare) ELSE IF At(t, q) = 125 THEN Good(q + 1, Node("o", <<>>, a)) ELSE Fail
AfterBom(t) == IF Len(t) >= 3 /\ SubSeq(t, 1, 3) = <<239, 187, 191>> THEN 4 ELSE 1
\* [ok, v]: is t a document, and which
Parse(t, bare) == LET r == Val(t, SkipWs(t, AfterBom(t)), bare) IN IF r.ok /\ SkipWs(t, r.p) = Len(t) + 1 THEN Good(r.p, r.v) ELSE Fail

(* relaxed syntax: comments outside of quoted text count as white space *)
RECURSIVE QuoteEnd(_, _)
QuoteEnd(t, p) == IF At(t, p) = -1 THEN Len(t) + 1 ELSE IF t[p] = 92 THEN QuoteEnd(t, p + 2) ELSE IF t[p] = 34 THEN p + 1 ELSE QuoteEnd(t, p + 1)
Min2(a, b) == IF a < b THEN a ELSE b
RECURSIVE BlockEnd(_, _)
BlockEnd(t, p) == IF p >= Len(t) THEN 0 ELSE IF t[p] = 42 /\ t[p + 1] = 47 THEN p + 2 ELSE BlockEnd(t, p + 1)
RECURSIVE Strip(_, _, _)    \* an unfinished comment makes the text one which is no document
Strip(t, p, acc) ==
    IF p > Len(t) THEN acc
    ELSE IF t[p] = 34 THEN LET q == Min2(QuoteEnd(t, p + 1), Len(t) + 1) IN Strip(t, q, acc \o SubSeq(t, p, q - 1))
    ELSE IF t[p] = 47 /\ At(t, p + 1) = 47 THEN Strip(t, RunEnd(t, p, (0..255) \ {10}), Append(acc, 32))
    ELSE IF t[p] = 47 /\ At(t, p + 1) = 42 THEN LET q == BlockEnd(t, p + 2) IN IF q = 0 THEN <<0>> ELSE Strip(t, q, Append(acc, 32))
    ELSE Strip(t, p + 1, Append(acc, t[p]))
Uncommented(t) == Strip(t, 1, <<>>)

RECURSIVE Same(_, _)
Same(x, y) ==
    /\ x.k = y.k /\ x.nk = y.nk /\ x.n = y.n /\ Len(x.c) = Len(y.c)
    /\ IF x.k = "n" THEN SameNumber(x.v, y.v) ELSE x.v = y.v
    /\ \A i \in DOMAIN x.c : Same(x.c[i], y.c[i])

(* writing: one of the texts of a tree *)
HexDigit(d) == IF d < 10 THEN 48 + d ELSE 87 + d
RECURSIVE EscStr(_)
EscStr(s) == IF s = <<>> THEN <<>> ELSE
    (CASE s[1] = 34 -> <<92, 34>> [] s[1] = 92 -> <<92, 92>>
       [] s[1] < 32 -> <<92, 117, 48, 48, HexDigit(s[1] \div 16), HexDigit(s[1] % 16)>>
       [] OTHER -> <<s[1]>>) \o EscStr(Tail(s))
Quoted(s) == <<34>> \o EscStr(s) \o <<34>>
RECURSIVE Text(_)
RECURSIVE Join(_)
Text(x) == (CASE x.nk = "s" -> Quoted(x.n) \o <<58>> [] x.nk = "w" -> x.n \o <<58>> [] OTHER -> <<>>) \o
    (CASE x.k = "s" -> Quoted(x.v) [] x.k = "n" -> x.v [] x.k = "t" -> True [] x.k = "f" -> False [] x.k = "z" -> Null [] x.k = "w" -> x.v
       [] x.k = "a" -> <<91>> \o Join(x.c) \o <<93>> [] x.k = "o" -> <<123>> \o Join(x.c) \o <<125>>)
Join(c) == IF c = <<>> THEN <<>> ELSE IF Len(c) = 1 THEN Text(c[1]) ELSE Text(c[1]) \o <<44>> \o Join(Tail(c))

(* editing: nodes are addressed by the positions of their ancestors and themselves among their siblings *)
RECURSIVE Get(_, _)
Get(x, path) == IF path = <<>> THEN x ELSE Get(x.c[Head(path)], Tail(path))
RECURSIVE Put(_, _, _)
Put(x, path, y) == IF path = <<>> THEN y ELSE [x EXCEPT !.c[Head(path)] = Put(@, Tail(path), y)]
\* a new value leaves the name
Assign(x, y) == Named(y, x.nk, x.n)
WithName(x, key) == {i \in DOMAIN x.c : x.c[i].nk # "-" /\ x.c[i].n = key}
FirstOf(S) == CHOOSE i \in S : \A j \in S : i <= j
Added(x, y) == [x EXCEPT !.c = Append(@, y)]
Removed(x) == [x EXCEPT !.c = SubSeq(@, 1, Len(@) - 1)]
Cleared(x) == [x EXCEPT !.c = <<>>]

(* looking things up *)
RECURSIVE Preorder(_)
RECURSIVE CatAll(_)
CatAll(ss) == IF ss = <<>> THEN <<>> ELSE Head(ss) \o CatAll(Tail(ss))
Preorder(x) == <<x>> \o CatAll([i \in DOMAIN x.c |-> Preorder(x.c[i])])
\* the node at a path of member names, as positions; <<0>> when there is none
RECURSIVE Lookup(_, _)
Lookup(x, keys) == IF keys = <<>> THEN <<>> ELSE
    LET S == WithName(x, Head(keys)) IN IF S = {} THEN <<0>> ELSE
    LET r == Lookup(x.c[FirstOf(S)], Tail(keys)) IN IF r = <<0>> THEN r ELSE <<FirstOf(S)>> \o r
=============================================================================
