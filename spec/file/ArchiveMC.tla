------------------------------ MODULE ArchiveMC ------------------------------
(* Small ZIP archives, written and then damaged in one place: what the reader of Archive makes of them. *)
EXTENDS Integers, Sequences, FiniteSets
CONSTANTS MaxItems, Values      \* how many files there are; the values a damaged byte takes
VARIABLES items, b, hurt        \* what was stored; the archive; how it was damaged
vars == <<items, b, hurt>>
A == INSTANCE Archive
W16(n) == <<n % 256, n \div 256>>
W32(n) == W16(n) \o W16(0)
Zero(n) == [i \in 1..n |-> 0]
Sum(d) == <<(IF d = <<>> THEN 0 ELSE d[1]), Len(d), 0, 0>>      \* stands for the CRC
Local(x) == A!LocalSig \o W16(20) \o W16(IF x.streamed THEN 8 ELSE 0) \o W16(0) \o Zero(4)
    \o (IF x.streamed THEN Zero(12) ELSE Sum(x.data) \o W32(Len(x.data)) \o W32(Len(x.data))) \o W16(Len(x.name)) \o W16(x.extra)
    \o x.name \o Zero(x.extra) \o x.data \o (IF x.streamed THEN Zero(16) ELSE <<>>)
Entry(x, at) == A!DirSig \o W16(20) \o W16(20) \o W16(IF x.streamed THEN 8 ELSE 0) \o W16(0) \o Zero(4)
    \o Sum(x.data) \o W32(Len(x.data)) \o W32(Len(x.data)) \o W16(Len(x.name)) \o W16(0) \o W16(x.extra) \o Zero(8) \o W32(at) \o x.name \o Zero(x.extra)
RECURSIVE Locals(_), Entries(_, _)
Locals(s) == IF s = <<>> THEN <<>> ELSE Locals(SubSeq(s, 1, Len(s) - 1)) \o Local(s[Len(s)])
Start(s, k) == Len(Locals(SubSeq(s, 1, k - 1)))
Entries(s, k) == IF k = 0 THEN <<>> ELSE Entries(s, k - 1) \o Entry(s[k], Start(s, k))
End(s) == A!EndSig \o Zero(4) \o W16(Len(s)) \o W16(Len(s)) \o W32(Len(Entries(s, Len(s)))) \o W32(Len(Locals(s))) \o W16(0)
Archive(s) == Locals(s) \o Entries(s, Len(s)) \o End(s)
Items == [name : {<<97>>, <<98, 47>>}, data : {<<>>, <<7>>}, extra : {0, 1}, streamed : BOOLEAN]
Init == items \in UNION {[1..n -> Items] : n \in 0..MaxItems} /\ b = Archive(items) /\ hurt = <<>>
Flip == hurt = <<>> /\ \E p \in 1..Len(b), v \in Values : b[p] # v /\ b' = [b EXCEPT ![p] = v] /\ hurt' = <<"byte", p>> /\ UNCHANGED items
CutFront == hurt = <<>> /\ \E n \in 1..Len(b) : b' = SubSeq(b, n + 1, Len(b)) /\ hurt' = <<"front", n>> /\ UNCHANGED items
CutBack == hurt = <<>> /\ \E n \in 1..Len(b) : b' = SubSeq(b, 1, Len(b) - n) /\ hurt' = <<"back", n>> /\ UNCHANGED items
Next == Flip \/ CutFront \/ CutBack
Spec == Init /\ [][Next]_vars
D == A!Directory(b)
Got(k) == LET d == A!Data(b, D.entries[k]) IN IF d.found THEN <<A!Bytes(b, d.start, d.size)>> ELSE <<>>
\* what was stored is what is found
Faithful == hurt = <<>> => /\ D.ok /\ [k \in DOMAIN D.entries |-> D.entries[k].name] = [k \in DOMAIN items |-> items[k].name]
                           /\ \A k \in DOMAIN items : Got(k) = <<items[k].data>> /\ A!Agree(b, D.entries[k]) /\ D.entries[k].sum = Sum(items[k].data)
\* however the archive is damaged, a reader stays within it
Inside == /\ \A k \in DOMAIN D.entries : Len(D.entries[k].name) <= Len(b)
          /\ \A k \in DOMAIN D.entries : LET d == A!Data(b, D.entries[k]) IN d.found => d.start >= A!LocalSize /\ d.start + d.size <= Len(b)
\* a file without an end record, or with less of a directory than it says, is not taken for an archive
Reported == /\ (hurt # <<>> /\ hurt[1] = "back") => ~D.ok \/ A!HasEnd(b)
            /\ (hurt # <<>> /\ hurt[1] = "front" /\ items # <<>> /\ hurt[2] > Len(Locals(items))) => ~D.ok
\* damage to the header or the data of one file does not change what is found in another
Apart == (hurt # <<>> /\ hurt[1] = "byte" /\ D.ok /\ hurt[2] <= Len(Locals(items))) =>
            /\ Len(D.entries) = Len(items)
            /\ \A k \in DOMAIN items : (hurt[2] <= Start(items, k) \/ hurt[2] > Start(items, k) + Len(Local(items[k]))) => Got(k) = <<items[k].data>>
=============================================================================
