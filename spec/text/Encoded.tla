-------------------------------- MODULE Encoded --------------------------------
(* Values and the forms they are written in: whole numbers as LEB128, UUIDs, versions, dumps of memory. *)
EXTENDS Naturals, Integers, Sequences, FiniteSets, FiniteSetsExt, SequencesExt
----------------------------------------------------------------------------
\* LEB128.  A number of a given width is the sequence of its bits, the least first; the code is a sequence of bytes.
RECURSIVE Pow(_, _)
Pow(b, n) == IF n = 0 THEN 1 ELSE b * Pow(b, n - 1)
Bits(bytes) == [i \in 1..(8 * Len(bytes)) |-> (bytes[((i - 1) \div 8) + 1] \div Pow(2, (i - 1) % 8)) % 2]
\* the bit at a place beyond the width: no value, or the sign again
UBit(v, i) == IF i <= Len(v) THEN v[i] ELSE 0
SBit(v, i) == IF i <= Len(v) THEN v[i] ELSE v[Len(v)]
Full(v) == ((Len(v) + 6) \div 7)
\* the fewest groups of seven that say it all
UGroups(v) == Min({n \in 1..Full(v) : \A i \in (7 * n + 1)..Len(v) : v[i] = 0})
SGroups(v) == Min({n \in 1..(Full(v) + 1) : \A i \in (7 * n)..Len(v) : SBit(v, i) = v[Len(v)]})
Group(Bit(_, _), v, g) == FoldLeft(LAMBDA a, j : a + Pow(2, j) * Bit(v, 7 * (g - 1) + j + 1), 0, <<0, 1, 2, 3, 4, 5, 6>>)
Leb(Bit(_, _), v, n) == [g \in 1..n |-> Group(Bit, v, g) + (IF g < n THEN 128 ELSE 0)]
Uleb(v) == Leb(UBit, v, UGroups(v))
Sleb(v) == Leb(SBit, v, SGroups(v))
\* reading
Payload(e) == [i \in 1..(7 * Len(e)) |-> (e[((i - 1) \div 7) + 1] \div Pow(2, (i - 1) % 7)) % 2]
WellFormed(e) == Len(e) > 0 /\ \A g \in 1..Len(e) : (e[g] >= 128) = (g < Len(e))
URead(e, width) == [i \in 1..width |-> UBit(Payload(e), i)]
SRead(e, width) == [i \in 1..width |-> SBit(Payload(e), i)]
----------------------------------------------------------------------------
\* UUIDs: sixteen bytes, the most significant first; texts are sequences of character codes
Digit(n) == IF n < 10 THEN 48 + n ELSE 55 + n
Hex(b) == <<Digit(b \div 16), Digit(b % 16)>>
Hexes(s) == FlattenSeq([i \in DOMAIN s |-> Hex(s[i])])
UuidText(u) == Hexes(SubSeq(u, 1, 4)) \o <<45>> \o Hexes(SubSeq(u, 5, 6)) \o <<45>> \o Hexes(SubSeq(u, 7, 8)) \o <<45>> \o Hexes(SubSeq(u, 9, 10)) \o <<45>> \o Hexes(SubSeq(u, 11, 16))
Value(c) == IF c \in 48..57 THEN c - 48 ELSE IF c \in 65..70 THEN c - 55 ELSE c - 87
UuidRead(t) == LET d == SelectSeq(t, LAMBDA c : c # 45) IN [i \in 1..16 |-> 16 * Value(d[2 * i - 1]) + Value(d[2 * i])]
\* version 4, variant 1
Random4(u) == u[7] \div 16 = 4 /\ u[9] \div 64 = 2
\* the order of sequences of numbers
Less(a, b) == \E i \in 1..Len(a) : a[i] < b[i] /\ \A j \in 1..(i - 1) : a[j] = b[j]
----------------------------------------------------------------------------
\* Versions: four numbers (each a sequence of decimal digits without leading zeros, so that they can be of any size) and a name
Zero == <<0>>
NoVersion == [n |-> <<Zero, Zero, Zero, Zero>>, name |-> <<>>]
Decimal(d) == [i \in DOMAIN d |-> 48 + d[i]]
NumLess(a, b) == Len(a) < Len(b) \/ (Len(a) = Len(b) /\ Less(a, b))
VersionLess(a, b) == \E i \in 1..4 : NumLess(a.n[i], b.n[i]) /\ \A j \in 1..(i - 1) : a.n[j] = b.n[j]
VersionSame(a, b) == a.n = b.n
Named(v) == IF v.name = <<>> THEN <<>> ELSE <<32>> \o v.name
Dotted(v, k) == FlattenSeq([i \in 1..k |-> (IF i > 1 THEN <<46>> ELSE <<>>) \o Decimal(v.n[i])])
VersionText(v) == Dotted(v, 4) \o Named(v)
\* through the interface: the build number only if there is one
VersionBrief(v) == Dotted(v, IF v.n[4] = Zero THEN 3 ELSE 4) \o Named(v)
IsDigit(c) == c \in 48..57
\* numbers with a full stop between them, at most four; a space and the name
VersionRead(t) ==
    LET space == IF \E i \in DOMAIN t : t[i] = 32 THEN Min({i \in DOMAIN t : t[i] = 32}) ELSE Len(t) + 1
        digits == SubSeq(t, 1, space - 1)
        starts == {i \in DOMAIN digits : IsDigit(digits[i]) /\ (i = 1 \/ ~IsDigit(digits[i - 1]))}
        nth(k) == CHOOSE i \in starts : Cardinality({j \in starts : j < i}) = k - 1
        end(i) == Max({j \in i..Len(digits) : \A m \in i..j : IsDigit(digits[m])})
        num(k) == LET i == nth(k) IN [j \in 1..(end(i) - i + 1) |-> digits[i + j - 1] - 48]
    IN [n |-> [k \in 1..4 |-> IF k <= Cardinality(starts) THEN num(k) ELSE Zero], name |-> SubSeq(t, space + 1, Len(t))]
----------------------------------------------------------------------------
\* Dumps: where, as text, as hexadecimal
RECURSIVE HexDigits(_)
HexDigits(n) == IF n < 16 THEN <<Digit(n)>> ELSE Append(HexDigits(n \div 16), Digit(n % 16))
Padded(d) == [i \in 1..(IF Len(d) < 4 THEN 4 - Len(d) ELSE 0) |-> 48] \o d
Shown(b) == IF b < 32 \/ b >= 128 THEN 46 ELSE b
DumpLine(b, at, w) ==
    LET n == IF Len(b) - at < w THEN Len(b) - at ELSE w
    IN Padded(HexDigits(at)) \o <<32, 58, 32>> \o [i \in 1..w |-> IF i <= n THEN Shown(b[at + i]) ELSE 32] \o <<32>>
       \o FlattenSeq([i \in 1..n |-> (IF i > 1 THEN <<32>> ELSE <<>>) \o Hex(b[at + i])]) \o <<32, 10>>
Dump(b, w) == FlattenSeq([k \in 1..((Len(b) + w - 1) \div w) |-> DumpLine(b, (k - 1) * w, w)])
=============================================================================
