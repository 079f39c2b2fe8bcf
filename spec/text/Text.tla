-------------------------------- MODULE Text --------------------------------
(* The rules of the text functions (core/string_utils.hpp, core/string_utf.hpp, core/quick_string.hpp) as operators over texts.  A text is a
   sequence of character codes; positions are 0-based as in the code; NPos stands for "not found". *)
EXTENDS Naturals, Integers, Sequences, FiniteSets

NPos == -1
Min2(a, b) == IF a < b THEN a ELSE b
Range(s) == {s[i] : i \in DOMAIN s}
From(s, p) == SubSeq(s, p + 1, Len(s))
Part(s, p, n) == SubSeq(s, p + 1, Min2(p + n, Len(s)))              \* n characters from p, fewer if the text ends before
IsPrefix(p, s) == Len(p) <= Len(s) /\ SubSeq(s, 1, Len(p)) = p
At(x, s, p) == p + Len(x) <= Len(s) /\ SubSeq(s, p + 1, p + Len(x)) = x   \* x occurs in s at p
RECURSIVE FoldCat(_)
FoldCat(ss) == IF ss = <<>> THEN <<>> ELSE Head(ss) \o FoldCat(Tail(ss))
MinOf(S) == CHOOSE x \in S : \A y \in S : x <= y
MaxOf(S) == CHOOSE x \in S : \A y \in S : x >= y
FirstOf(S) == IF S = {} THEN NPos ELSE MinOf(S)
LastOf(S) == IF S = {} THEN NPos ELSE MaxOf(S)

(* ---- searching ---- *)
Find(s, x, p) == FirstOf({i \in p..(Len(s) - Len(x)) : At(x, s, i)})
RFind(s, x, p) == LastOf({i \in 0..Min2(p, Len(s) - Len(x)) : At(x, s, i)})
FindFirstIn(s, C, p) == FirstOf({i \in p..(Len(s) - 1) : s[i + 1] \in C})
FindFirstNotIn(s, C, p) == FirstOf({i \in p..(Len(s) - 1) : s[i + 1] \notin C})
FindLastIn(s, C, p) == LastOf({i \in 0..Min2(p, Len(s) - 1) : s[i + 1] \in C})
FindLastNotIn(s, C, p) == LastOf({i \in 0..Min2(p, Len(s) - 1) : s[i + 1] \notin C})
\* the start of the run of characters of C that ends at p
RunStart(s, C, p) == IF s = <<>> \/ s[p + 1] \notin C THEN NPos ELSE FindLastNotIn(s, C, p) + 1

RECURSIVE Compare(_, _)
Compare(s, t) == IF s = <<>> THEN (IF t = <<>> THEN 0 ELSE -1)
                 ELSE IF t = <<>> THEN 1
                 ELSE IF Head(s) < Head(t) THEN -1 ELSE IF Head(s) > Head(t) THEN 1 ELSE Compare(Tail(s), Tail(t))
LowerChar(c) == IF c \in 65..90 THEN c + 32 ELSE c
UpperChar(c) == IF c \in 97..122 THEN c - 32 ELSE c
Lower(s) == [i \in DOMAIN s |-> LowerChar(s[i])]
Upper(s) == [i \in DOMAIN s |-> UpperChar(s[i])]

(* ---- changing ---- *)
Splice(s, p, n, x) == SubSeq(s, 1, p) \o x \o From(s, Min2(p + n, Len(s)))
Fill(n, c) == [i \in 1..n |-> c]
Resized(s, n, c) == IF n <= Len(s) THEN SubSeq(s, 1, n) ELSE s \o Fill(n - Len(s), c)

(* every non-overlapping occurrence of x, from left to right, becomes y; spans lie clear of the occurrences *)
RECURSIVE Occurrences(_, _, _)
Occurrences(s, x, p) == LET f == Find(s, x, p) IN IF x = <<>> \/ f = NPos THEN <<>> ELSE <<f>> \o Occurrences(s, x, f + Len(x))
RECURSIVE ReplaceAt(_, _, _, _, _)
ReplaceAt(s, n, y, occ, from) ==
    IF occ = <<>> THEN From(s, from) ELSE SubSeq(s, from + 1, Head(occ)) \o y \o ReplaceAt(s, n, y, Tail(occ), Head(occ) + n)
ReplaceAll(s, x, y) == ReplaceAt(s, Len(x), y, Occurrences(s, x, 0), 0)
Shift(p, x, y, occ) == p + Cardinality({i \in DOMAIN occ : occ[i] < p}) * (Len(y) - Len(x))
ClearSpan(sp, n, occ) == sp[1] # sp[2] /\ \A i \in DOMAIN occ : sp[2] < occ[i] \/ sp[1] >= occ[i] + n

(* ---- trimming ---- *)
TrimLeft(s, C) == LET f == FindFirstNotIn(s, C, 0) IN IF f = NPos THEN <<>> ELSE From(s, f)
TrimRight(s, C) == LET f == FindLastNotIn(s, C, Len(s)) IN IF f = NPos THEN <<>> ELSE SubSeq(s, 1, f + 1)
Trim(s, C) == TrimRight(TrimLeft(s, C), C)

(* ---- splitting ---- *)
DelimAt(s, d, whole, p) == IF whole THEN Find(s, d, p) ELSE FindFirstIn(s, Range(d), p)
RECURSIVE Split(_, _, _, _)
Split(s, d, whole, p) == LET f == DelimAt(s, d, whole, p) IN
    IF f = NPos THEN <<From(s, p)>> ELSE <<SubSeq(s, p + 1, f)>> \o Split(s, d, whole, f + (IF whole THEN Len(d) ELSE 1))
Tokens(s, d, max, skip, whole) ==
    IF s = <<>> THEN <<>> ELSE IF d = <<>> THEN <<s>> ELSE
    LET all == Split(s, d, whole, 0)
        NotEmpty(t) == t # <<>>
        kept == IF skip THEN SelectSeq(all, NotEmpty) ELSE all
    IN IF max = 0 THEN kept ELSE SubSeq(kept, 1, Min2(max, Len(kept)))
RECURSIVE Join(_, _)
Join(ts, d) == IF ts = <<>> THEN <<>> ELSE IF Len(ts) = 1 THEN Head(ts) ELSE Head(ts) \o d \o Join(Tail(ts), d)

(* ---- wildcards: each star stands for any run of characters, each question mark for one ---- *)
Star == 42
AnyOne == 63
RECURSIVE WildAt(_, _, _, _)
WildAt(t, p, i, j) ==
    IF j > Len(p) THEN i > Len(t)
    ELSE IF p[j] = Star THEN WildAt(t, p, i, j + 1) \/ (i <= Len(t) /\ WildAt(t, p, i + 1, j))
    ELSE i <= Len(t) /\ (p[j] = AnyOne \/ p[j] = t[i]) /\ WildAt(t, p, i + 1, j + 1)
Wild(t, p) == WildAt(t, p, 1, 1)
\* where a pattern occurs inside a text; a star at the end takes all that is left
SpansOf(t, p) == {x \in (0..(Len(t) - 1)) \X (1..Len(t)) : x[1] < x[2] /\ (p[Len(p)] = Star => x[2] = Len(t)) /\ Wild(SubSeq(t, x[1] + 1, x[2]), p)}
Maximal(S) == {x \in S : ~\E y \in S : y # x /\ y[1] <= x[1] /\ y[2] >= x[2]}

(* ---- formatting: a format is a sequence of literal pieces [lit] and fields [arg] (-1: the next number) ---- *)
RECURSIVE Formatted(_, _, _, _)
Formatted(parts, args, out, spans) ==
    IF parts = <<>> THEN [text |-> out, spans |-> spans] ELSE
    LET f == Head(parts) IN
    IF f.lit THEN Formatted(Tail(parts), args, out \o f.x, spans)
    ELSE LET a == IF f.arg = -1 THEN Len(spans) ELSE f.arg IN
         Formatted(Tail(parts), args, out \o args[a + 1], Append(spans, <<a, Len(out), Len(out) + Len(args[a + 1])>>))
SpanningArg(spans, p) == FirstOf({i \in 0..(Len(spans) - 1) : spans[i + 1][2] <= p /\ p < spans[i + 1][3]})
ArgAfter(spans, p) == FirstOf({i \in 0..(Len(spans) - 1) : spans[i + 1][2] > p})

(* ---- escapes ---- *)
IsHex(c) == c \in 48..57 \/ c \in 65..70 \/ c \in 97..102
HexVal(c) == IF c \in 48..57 THEN c - 48 ELSE IF c \in 65..70 THEN c - 55 ELSE c - 87
HexDigit(n) == IF n < 10 THEN 48 + n ELSE 87 + n
Backslash == 92
RECURSIVE HexRun(_, _)
HexRun(s, i) == IF i <= Len(s) /\ IsHex(s[i]) THEN 1 + HexRun(s, i + 1) ELSE 0
RECURSIVE HexNum(_, _, _, _)
HexNum(s, i, n, acc) == IF n = 0 THEN acc ELSE HexNum(s, i + 1, n - 1, (acc * 16 + HexVal(s[i])) % 256)
RECURSIVE Unescape(_, _)
Unescape(s, i) ==
    IF i > Len(s) THEN <<>>
    ELSE IF s[i] # Backslash \/ i = Len(s) THEN <<s[i]>> \o Unescape(s, i + 1)
    ELSE LET c == s[i + 1] IN
         IF c = 110 THEN <<10>> \o Unescape(s, i + 2)
         ELSE IF c = 114 THEN <<13>> \o Unescape(s, i + 2)
         ELSE IF c = 116 THEN <<9>> \o Unescape(s, i + 2)
         ELSE IF c = 120 THEN LET n == HexRun(s, i + 2) IN (IF n = 0 THEN <<Backslash, 120>> ELSE <<HexNum(s, i + 2, n, 0)>>) \o Unescape(s, i + 2 + n)
         ELSE <<c>> \o Unescape(s, i + 2)
EscapedChar(c) == IF c \in 32..127 THEN <<c>> ELSE IF c = 10 THEN <<Backslash, 110>> ELSE IF c = 13 THEN <<Backslash, 114>>
                  ELSE IF c = 9 THEN <<Backslash, 116>> ELSE <<Backslash, 120, HexDigit(c \div 16), HexDigit(c % 16)>>
Escaped(s, max, dots) == LET cut == max # 0 /\ Len(s) > max IN
    FoldCat([i \in 1..(IF cut THEN max ELSE Len(s)) |-> EscapedChar(s[i])]) \o (IF cut /\ dots THEN <<46, 46, 46>> ELSE <<>>)
RECURSIVE UrlUnescape(_, _)
UrlUnescape(s, i) == IF i > Len(s) THEN <<>> ELSE IF s[i] = 37 THEN <<HexVal(s[i + 1]) * 16 + HexVal(s[i + 2])>> \o UrlUnescape(s, i + 3)
                     ELSE <<s[i]>> \o UrlUnescape(s, i + 1)
=============================================================================
