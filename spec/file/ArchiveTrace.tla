----------------------------- MODULE ArchiveTrace -----------------------------
(* Recorded readings of ZIP archives and gzip data, sound and damaged, against Archive. *)
EXTENDS TraceBase
VARIABLES bytes, entries, facts, good   \* the archive; its directory; what its data unpack to; whether all has been well so far
vars == <<l, bytes, entries, facts, good>>
A == INSTANCE Archive
Names == [i \in DOMAIN entries |-> entries[i].name]
\* facts[k]: <<start, size, method, unpacks, length, sum>>
Unpacked(k) ==
    LET e == entries[k] d == A!Data(bytes, e) f == facts[k] IN
    /\ d.found
    /\ Assert(f[1] = d.start /\ f[2] = d.size /\ f[3] = d.method, "the driver and the specification disagree on where data are")
    /\ f[4] /\ f[6] = e.sum /\ (d.method = 8 => f[5] = e.full)
\* an extraction which says that it succeeded: the data of the entry, all of them
Delivered(k, same, sum) ==
    IF A!Data(bytes, entries[k]).found /\ A!Agree(bytes, entries[k]) THEN Unpacked(k) /\ same
    ELSE \* the headers contradict each other: at least the checksum of one of them
        /\ entries[k].at + A!LocalSize <= Len(bytes) /\ A!Four(bytes, entries[k].at) = A!LocalSig
        /\ sum \in {entries[k].sum, A!Four(bytes, entries[k].at + 14)}
MustDeliver(k) == good /\ k \in DOMAIN entries /\ A!Data(bytes, entries[k]).found /\ A!Agree(bytes, entries[k]) /\ Unpacked(k)
\* the bytes of a file's path; one without directories in it
Plain(n) == n # <<>> /\ \A i \in DOMAIN n : n[i] > 32 /\ n[i] < 127 /\ n[i] # 47
NotDots(n) == n # <<46>> /\ n # <<46, 46>>
First(n) == IF \E i \in DOMAIN entries : entries[i].name = n THEN CHOOSE i \in DOMAIN entries : entries[i].name = n /\ \A j \in 1..(i - 1) : entries[j].name # n ELSE 0
Keep == UNCHANGED <<bytes, entries, facts>>
Same == Keep /\ UNCHANGED good
Extraction(k, ret) ==   \* what an extraction does to the archive's state
    /\ k \notin DOMAIN entries => ~ret
    /\ ret => good
    /\ MustDeliver(k) => ret
    /\ Ev.ok => good
    /\ ret => Ev.ok
    /\ (good /\ k \in DOMAIN entries /\ ~ret) => ~Ev.ok
    /\ good' = Ev.ok
TInit == l = 1 /\ bytes = <<>> /\ entries = <<>> /\ facts = <<>> /\ good = FALSE
Next ==
    \/ IsEvent("open") /\ bytes' = Ev.bytes /\ (LET d == A!Directory(Ev.bytes) IN
            /\ entries' = d.entries /\ good' = d.ok /\ Ev.ok = d.ok /\ facts' = Ev.facts
            /\ d.ok => Ev.names = [i \in DOMAIN d.entries |-> d.entries[i].name] /\ Len(Ev.facts) = Len(d.entries))
    \/ IsEvent("get") /\ Extraction(Ev.k, Ev.ret) /\ (Ev.ret => Delivered(Ev.k, Ev.same, Ev.sum)) /\ Keep
    \/ IsEvent("text") /\ Extraction(Ev.k, IF Ev.k \in DOMAIN entries THEN good /\ Ev.ok ELSE FALSE)
            /\ ((good /\ Ev.ok /\ Ev.k \in DOMAIN entries) => Delivered(Ev.k, Ev.same, Ev.sum)) /\ Keep
    \/ IsEvent("file") /\ Ev.outside = 0 /\ Keep /\ good' = Ev.ok
            /\ (Ev.ok => good) /\ (Ev.ret => good /\ Ev.k \in DOMAIN entries /\ Ev.inside = 1)
            /\ (Ev.ret /\ Ev.k \in DOMAIN entries => A!Data(bytes, entries[Ev.k]).found /\ (A!Agree(bytes, entries[Ev.k]) => Unpacked(Ev.k) /\ Ev.same))
            /\ (MustDeliver(Ev.k) /\ Plain(entries[Ev.k].name) /\ NotDots(entries[Ev.k].name) => Ev.ret /\ Ev.ok /\ Ev.at = entries[Ev.k].name)
    \/ IsEvent("index") /\ (good => Ev.r = First(Ev.name)) /\ Same
    \/ IsEvent("copy") /\ Ev.ok = good /\ (good => Ev.names = Names) /\ Same
    \/ IsEvent("look") /\ Ev.ok = good /\ (good => Ev.names = Names) /\ Same
    \/ IsEvent("gunzip") /\ Same /\ ~Ev.threw
            /\ Assert(A!GzipStart(Ev.bytes) = Ev.start \/ A!GzipStart(Ev.bytes) = -1, "the driver and the specification disagree on where gzip data start")
            /\ (Ev.ok => A!GzipGood(Ev.bytes, Ev) /\ Ev.same)
            /\ (~Ev.ok => Ev.size = 0)
            /\ (A!GzipGood(Ev.bytes, Ev) /\ Ev.whole /\ A!Byte(Ev.bytes, 3) < 32 => Ev.ok)
Spec == TInit /\ [][Next]_vars
=============================================================================
