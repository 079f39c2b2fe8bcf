---------------------------------- MODULE Uri ----------------------------------
(* Uniform resource identifiers: the parts a text denotes, and texts that denote given parts.  Texts are sequences of
   byte codes.  P33. *)
EXTENDS Integers, Sequences, SequencesExt, FiniteSets

Percent == 37   Hash == 35   Slash == 47   Colon == 58   Ask == 63   At == 64   Open == 91   Close == 93
Digit == 48..57
Hex == Digit \cup 65..70 \cup 97..102
Value(h) == IF h \in Digit THEN h - 48 ELSE IF h \in 65..70 THEN h - 55 ELSE h - 87
HexOf(n) == IF n < 10 THEN 48 + n ELSE 87 + n
\* bytes that may stand in a text
Plain == Digit \cup 65..90 \cup 97..122 \cup {45, 46, 95, 126, 58, 47, 63, 35, 91, 93, 64, 33, 36, 38, 39, 40, 41, 42, 43, 44, 59, 61, 37}

\* a percent sign and two hexadecimal digits stand for a byte, any other percent sign for itself
Decode(s) ==
    LET F(acc, i) == IF acc.skip > 0 THEN [acc EXCEPT !.skip = acc.skip - 1]
                     ELSE IF s[i] = Percent /\ i + 2 <= Len(s) /\ s[i + 1] \in Hex /\ s[i + 2] \in Hex
                          THEN [out |-> Append(acc.out, 16 * Value(s[i + 1]) + Value(s[i + 2])), skip |-> 2]
                          ELSE [out |-> Append(acc.out, s[i]), skip |-> 0]
    IN FoldLeft(F, [out |-> <<>>, skip |-> 0], [i \in DOMAIN s |-> i]).out
Encode(s, reserved) == FoldLeft(LAMBDA out, b : IF b \in Plain \ reserved THEN Append(out, b) ELSE out \o <<Percent, HexOf(b \div 16), HexOf(b % 16)>>, <<>>, s)

Places(s, c) == {i \in DOMAIN s : s[i] = c}
First(S) == CHOOSE i \in S : \A j \in S : i <= j
\* what is before and after the first c; has: whether there is one
Cut(s, c) == IF Places(s, c) = {} THEN [has |-> FALSE, before |-> s, after |-> <<>>]
             ELSE LET i == First(Places(s, c)) IN [has |-> TRUE, before |-> SubSeq(s, 1, i - 1), after |-> SubSeq(s, i + 1, Len(s))]
None == <<-1>>      \* a part that is not there

SchemeEnd(s) == {i \in DOMAIN s : i + 2 <= Len(s) /\ s[i] = Colon /\ s[i + 1] = Slash /\ s[i + 2] = Slash}
\* the end of the scheme: the first "://", unless the path, the query or the fragment began before it
Scheme(s) == IF SchemeEnd(s) = {} \/ \E j \in 1..(First(SchemeEnd(s)) - 1) : s[j] \in {Slash, Ask, Hash}
             THEN [has |-> FALSE, before |-> <<>>, after |-> s]
             ELSE LET i == First(SchemeEnd(s)) IN [has |-> TRUE, before |-> SubSeq(s, 1, i - 1), after |-> SubSeq(s, i + 3, Len(s))]

\* an address in brackets may contain colons
HostPort(s) == IF Len(s) > 0 /\ s[1] = Open /\ Places(s, Close) # {}
               THEN LET i == First(Places(s, Close)) IN [before |-> SubSeq(s, 1, i), after |-> Cut(SubSeq(s, i + 1, Len(s)), Colon).after]
               ELSE [before |-> Cut(s, Colon).before, after |-> Cut(s, Colon).after]
NumberIn(s) == FoldLeft(LAMBDA n, d : IF n > 65535 THEN n ELSE 10 * n + Value(d), 0, s)
Authority(s) == LET u == Cut(s, At)  h == HostPort(IF u.has THEN u.after ELSE s) IN
    [user |-> IF u.has THEN Decode(u.before) ELSE None, host |-> IF h.before = <<>> THEN None ELSE Decode(h.before),
     port |-> IF h.after = <<>> THEN -1 ELSE IF \A i \in DOMAIN h.after : h.after[i] \in Digit THEN NumberIn(h.after) ELSE 65536]

Denoted(s) == LET sc == Scheme(s)  fr == Cut(sc.after, Hash)  qu == Cut(fr.before, Ask)  pa == Cut(qu.before, Slash) IN
    [scheme |-> Decode(sc.before), authority |-> Authority(pa.before), path |-> Decode(pa.after), query |-> Decode(qu.after), fragment |-> Decode(fr.after)]
\* a port that is not a number up to 65535 makes a text denote nothing
Sound(u) == u.authority.port <= 65535
Empty == [scheme |-> <<>>, authority |-> [user |-> None, host |-> None, port |-> -1], path |-> <<>>, query |-> <<>>, fragment |-> <<>>]

\* a text that denotes u
Decimal(n) == IF n < 10 THEN <<48 + n>> ELSE IF n < 100 THEN <<48 + (n \div 10), 48 + (n % 10)>> ELSE <<48 + (n \div 100), 48 + ((n \div 10) % 10), 48 + (n % 10)>>
Bracketed(h) == Len(h) > 1 /\ h[1] = Open /\ First(Places(h, Close) \cup {Len(h) + 1}) = Len(h)
Written(u) == LET a == u.authority IN
    Encode(u.scheme, {Percent, Colon, Slash, Ask, Hash}) \o <<Colon, Slash, Slash>>
    \o (IF a.user = None THEN <<>> ELSE Encode(a.user, {Percent, At, Slash, Ask, Hash}) \o <<At>>)
    \o (IF a.host = None THEN <<>> ELSE Encode(a.host, {Percent, At, Slash, Ask, Hash} \cup (IF Bracketed(a.host) THEN {} ELSE {Colon, Open})))
    \o (IF a.port = -1 THEN <<>> ELSE <<Colon>> \o Decimal(a.port))
    \o <<Slash>> \o Encode(u.path, {Percent, Ask, Hash})
    \o (IF u.query = <<>> THEN <<>> ELSE <<Ask>> \o Encode(u.query, {Percent, Hash}))
    \o (IF u.fragment = <<>> THEN <<>> ELSE <<Hash>> \o Encode(u.fragment, {Percent}))
=============================================================================
