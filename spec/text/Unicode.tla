------------------------------- MODULE Unicode -------------------------------
(* UTF-8, UTF-16 and UTF-32 as in the Unicode standard: what is well formed, and what each conversion yields.  An ill-formed byte of UTF-8
   yields the replacement character, and decoding goes on with the byte after it. *)
EXTENDS Naturals, Sequences

Replacement == 65533
Scalar(c) == c <= 1114111 /\ c \notin 55296..57343
IsTrail(b) == b \in 128..191
Encode8(c) == IF c < 128 THEN <<c>>
              ELSE IF c < 2048 THEN <<192 + c \div 64, 128 + (c % 64)>>
              ELSE IF c < 65536 THEN <<224 + c \div 4096, 128 + ((c \div 64) % 64), 128 + (c % 64)>>
              ELSE <<240 + c \div 262144, 128 + ((c \div 4096) % 64), 128 + ((c \div 64) % 64), 128 + (c % 64)>>
Encode16(c) == IF c < 65536 THEN <<c>> ELSE <<55296 + (c - 65536) \div 1024, 56320 + ((c - 65536) % 1024)>>
\* how long a sequence the lead byte asks for (0: no lead byte)
SeqLen(b) == IF b < 128 THEN 1 ELSE IF b \in 194..223 THEN 2 ELSE IF b \in 224..239 THEN 3 ELSE IF b \in 240..247 THEN 4 ELSE 0
Bits(b, n) == IF n = 1 THEN b ELSE IF n = 2 THEN b - 192 ELSE IF n = 3 THEN b - 224 ELSE b - 240
\* the code point encoded at i and its length; [n |-> 0] if what is there is not well formed
DecodeAt(s, i) ==
    LET n == SeqLen(s[i]) IN
    IF n = 0 \/ i + n - 1 > Len(s) \/ \E k \in 1..(n - 1) : ~IsTrail(s[i + k]) THEN [n |-> 0, c |-> Replacement]
    ELSE LET c == IF n = 1 THEN s[i] ELSE IF n = 2 THEN Bits(s[i], 2) * 64 + s[i + 1] - 128
                  ELSE IF n = 3 THEN Bits(s[i], 3) * 4096 + (s[i + 1] - 128) * 64 + s[i + 2] - 128
                  ELSE Bits(s[i], 4) * 262144 + (s[i + 1] - 128) * 4096 + (s[i + 2] - 128) * 64 + s[i + 3] - 128
         IN IF Scalar(c) /\ Len(Encode8(c)) = n THEN [n |-> n, c |-> c] ELSE [n |-> 0, c |-> Replacement]
\* [out: code points, at: where each of them starts, ok: nothing was replaced]
RECURSIVE Decode8(_, _, _, _, _)
Decode8(s, i, out, at, ok) ==
    IF i > Len(s) THEN [out |-> out, at |-> at, ok |-> ok] ELSE
    LET d == DecodeAt(s, i) IN Decode8(s, i + (IF d.n = 0 THEN 1 ELSE d.n), Append(out, d.c), Append(at, i - 1), ok /\ d.n # 0)
FromUtf8(s) == Decode8(s, 1, <<>>, <<>>, TRUE)
WellFormed8(s) == FromUtf8(s).ok
RECURSIVE Cat(_)
Cat(ss) == IF ss = <<>> THEN <<>> ELSE Head(ss) \o Cat(Tail(ss))
ToUtf8(cs) == Cat([i \in DOMAIN cs |-> Encode8(cs[i])])
ToUtf16(cs) == Cat([i \in DOMAIN cs |-> Encode16(cs[i])])
High(u) == u \in 55296..56319
Low(u) == u \in 56320..57343
RECURSIVE Decode16(_, _)
Decode16(s, i) == IF i > Len(s) THEN <<>>
                  ELSE IF High(s[i]) /\ i < Len(s) /\ Low(s[i + 1]) THEN <<65536 + (s[i] - 55296) * 1024 + s[i + 1] - 56320>> \o Decode16(s, i + 2)
                  ELSE <<s[i]>> \o Decode16(s, i + 1)
FromUtf16(s) == Decode16(s, 1)
WellFormed16(s) == \A i \in DOMAIN FromUtf16(s) : Scalar(FromUtf16(s)[i])
\* for each byte of the UTF-8 text, the UTF-16 unit it comes from (the last byte of a pair belongs to the pair's second unit)
RECURSIVE Map8To16(_, _)
Map8To16(cs, u) == IF cs = <<>> THEN <<>> ELSE
    LET n == Len(Encode8(Head(cs)))
        m == Len(Encode16(Head(cs)))
    IN [k \in 1..n |-> IF m = 2 /\ k = n THEN u + 1 ELSE u] \o Map8To16(Tail(cs), u + m)
\* the offset in the UTF-16 text at which each code point starts
RECURSIVE Starts16(_, _)
Starts16(cs, u) == IF cs = <<>> THEN <<>> ELSE <<u>> \o Starts16(Tail(cs), u + Len(Encode16(Head(cs))))
=============================================================================
