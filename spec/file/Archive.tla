------------------------------- MODULE Archive -------------------------------
(* ZIP archives and gzip data, byte by byte: what a reader finds in them. *)
(* Compression and checksums are left open: a reader is told what stretches of bytes unpack to. *)
EXTENDS Integers, Sequences
Big == 1073741824   \* stands for every number of that size or more: no file here is that long
\* offsets count from 0
Byte(b, p) == b[p + 1]
U16(b, p) == Byte(b, p) + 256 * Byte(b, p + 1)
U32(b, p) == IF Byte(b, p + 3) >= 64 THEN Big ELSE U16(b, p) + 65536 * U16(b, p + 2)
Four(b, p) == <<Byte(b, p), Byte(b, p + 1), Byte(b, p + 2), Byte(b, p + 3)>>
Bytes(b, p, n) == SubSeq(b, p + 1, p + n)
LocalSig == <<80, 75, 3, 4>>
DirSig == <<80, 75, 1, 2>>
EndSig == <<80, 75, 5, 6>>
LocalSize == 30
DirSize == 46
EndSize == 22

(* The end record is the last thing in the file, the directory is just before it. *)
EndAt(b) == Len(b) - EndSize
HasEnd(b) == Len(b) >= EndSize /\ Four(b, EndAt(b)) = EndSig
EntryAt(b, p) == [name |-> Bytes(b, p + DirSize, U16(b, p + 28)), method |-> U16(b, p + 10), sum |-> Four(b, p + 16),
                  size |-> U32(b, p + 20), full |-> U32(b, p + 24), fullBytes |-> Four(b, p + 24), at |-> U32(b, p + 42)]
EntryEnd(b, p) == p + DirSize + U16(b, p + 28) + U16(b, p + 30) + U16(b, p + 32)
RECURSIVE Walk(_, _, _, _)
Walk(b, p, n, found) ==
    IF n = 0 THEN [ok |-> TRUE, entries |-> found]
    ELSE IF p + DirSize > EndAt(b) THEN [ok |-> FALSE, entries |-> found]
    ELSE IF Four(b, p) # DirSig THEN [ok |-> FALSE, entries |-> found]
    ELSE IF EntryEnd(b, p) > EndAt(b) THEN [ok |-> FALSE, entries |-> found]
    ELSE Walk(b, EntryEnd(b, p), n - 1, Append(found, EntryAt(b, p)))
Directory(b) ==
    IF ~HasEnd(b) THEN [ok |-> FALSE, entries |-> <<>>]
    ELSE LET p == EndAt(b) - U32(b, EndAt(b) + 12) IN
        IF p < 0 /\ U16(b, EndAt(b) + 8) > 0 THEN [ok |-> FALSE, entries |-> <<>>]
        ELSE Walk(b, p, U16(b, EndAt(b) + 8), <<>>)

(* Where the data of an entry are. *)
Data(b, e) ==
    LET none == [found |-> FALSE, start |-> 0, size |-> 0, method |-> 0] IN
    IF e.at + LocalSize > Len(b) THEN none
    ELSE IF Four(b, e.at) # LocalSig THEN none
    ELSE LET start == e.at + LocalSize + U16(b, e.at + 26) + U16(b, e.at + 28) IN
        IF start + e.size > Len(b) \/ U16(b, e.at + 8) \notin {0, 8} THEN none
        ELSE [found |-> TRUE, start |-> start, size |-> e.size, method |-> U16(b, e.at + 8)]
(* Whether both headers of an entry say the same about it; the sizes and the sum may be left out of the first one. *)
Streamed(b, e) == (U16(b, e.at + 6) \div 8) % 2 = 1
Agree(b, e) ==
    /\ e.method = U16(b, e.at + 8)
    /\ Streamed(b, e) \/ (Four(b, e.at + 14) = e.sum /\ U32(b, e.at + 18) = e.size /\ U32(b, e.at + 22) = e.full)
    /\ e.method = 0 => e.size = e.full

(* gzip: the header, then the compressed data, then the checksum and the size of what they stand for. *)
RECURSIVE AfterNul(_, _)
AfterNul(b, p) == IF p >= Len(b) THEN p + 1 ELSE IF Byte(b, p) = 0 THEN p + 1 ELSE AfterNul(b, p + 1)
Bit(x, n) == (x \div n) % 2 = 1
GzipStart(b) ==     \* -1: not gzip
    IF Len(b) < 18 THEN -1
    ELSE IF Byte(b, 0) # 31 \/ Byte(b, 1) # 139 \/ Byte(b, 2) # 8 THEN -1
    ELSE LET f == Byte(b, 3)
             extra == IF ~Bit(f, 4) THEN 10 ELSE IF Len(b) < 12 THEN Len(b) ELSE 12 + U16(b, 10)
             name == IF ~Bit(f, 8) THEN extra ELSE AfterNul(b, extra)
             comment == IF ~Bit(f, 16) THEN name ELSE AfterNul(b, name)
             sum == IF ~Bit(f, 2) THEN comment ELSE comment + 2
         IN IF sum + 8 > Len(b) THEN -1 ELSE sum
(* The result of a stretch of bytes: [ends: it is one whole compressed stream; whole: with nothing after it; sum, length] *)
GzipGood(b, r) == GzipStart(b) >= 0 /\ r.ends /\ r.sum = Four(b, Len(b) - 8) /\ r.length = Four(b, Len(b) - 4)
=============================================================================
