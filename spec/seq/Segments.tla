------------------------------ MODULE Segments ------------------------------
(* Design-level model of segmented_array: an ordered list of segments of at most S elements, the placement rules of an
   insertion (into the segment itself; spilling into the following segment when that also holds the displaced tail;
   otherwise into new segments) and erasure (inside one segment or across several, dropping emptied segments).
   TLC checks the rules are the abstract sequence operations and that the segment invariants are kept; with Emit it
   prints one operation sequence per transition of the reachable graph of segment shapes for replay in the real code. *)
EXTENDS Integers, Sequences, FiniteSets, TLC

CONSTANTS S, MaxLen, MaxIns, Vals, Emit, MaxDepth
VARIABLES segs, plan, op
vars == <<segs, plan, op>>

Min(a, b) == IF a < b THEN a ELSE b
Max(a, b) == IF a > b THEN a ELSE b
RECURSIVE Cat(_)
Cat(ss) == IF ss = <<>> THEN <<>> ELSE Head(ss) \o Cat(Tail(ss))
Abs == Cat(segs)
Size == Len(Abs)
Start(k) == Len(Cat(SubSeq(segs, 1, k - 1)))
\* an iterator names a segment and an index in it; end() names the back segment, past its last element; a position
\* where two segments meet is the first of the later one
SegOf(p) == CHOOSE k \in 1..Len(segs) : Start(k) <= p /\ (p < Start(k) + Len(segs[k]) \/ (k = Len(segs) /\ p = Size))
Avail(s) == S - Len(s)

RECURSIVE Chop(_)
Chop(s) == IF Len(s) <= S THEN <<s>> ELSE <<SubSeq(s, 1, S)>> \o Chop(SubSeq(s, S + 1, Len(s)))
Replace(k, n, new) == SubSeq(segs, 1, k - 1) \o new \o SubSeq(segs, k + n, Len(segs))

Log(s) == plan' = (IF Emit THEN Append(plan, s) ELSE plan) /\ (Emit => PrintT("PLAN " \o ToString(plan')))

Init == segs = <<>> /\ plan = <<>> /\ op = "init"

DoInsert(p, vs) ==
    LET n == Len(vs) IN
    IF segs = <<>> THEN segs' = Chop(vs) /\ op' = "first"
    ELSE LET k == SegOf(p)
             sp == p - Start(k)
             A == segs[k]
             head == SubSeq(A, 1, sp)
             tail == SubSeq(A, sp + 1, Len(A))
         IN IF n <= Avail(A) THEN segs' = Replace(k, 1, <<head \o vs \o tail>>) /\ op' = "within"
            ELSE LET rest == n - Avail(A)
                     useNext == k < Len(segs) /\ Max(rest, Len(tail)) <= Avail(segs[k + 1])
                     fill == Min(n, S - sp)              \* A takes what fits once its tail has been moved
                 IN IF useNext /\ Avail(A) >= Len(tail)
                    THEN segs' = Replace(k, 2, <<head \o SubSeq(vs, 1, fill), SubSeq(vs, fill + 1, n) \o tail \o segs[k + 1]>>) /\ op' = "spill"
                    ELSE LET after == SubSeq(vs, fill + 1, n)
                             \* new segments: all but the last are full, the last takes the remaining values and the tail,
                             \* or the tail goes alone into a further one
                             chunks == Chop(after)
                             lastc == chunks[Len(chunks)]
                         IN IF Len(lastc) + Len(tail) <= S
                            THEN segs' = Replace(k, 1, <<head \o SubSeq(vs, 1, fill)>> \o SubSeq(chunks, 1, Len(chunks) - 1) \o <<lastc \o tail>>) /\ op' = "newseg"
                            ELSE segs' = Replace(k, 1, <<head \o SubSeq(vs, 1, fill)>> \o chunks \o <<tail>>) /\ op' = "newtail"

NonEmpty(ss) == SelectSeq(ss, LAMBDA s : s # <<>>)
DoErase(p, n) ==
    LET a == SegOf(p) b == SegOf(p + n) IN
    IF a = b
    THEN /\ segs' = NonEmpty(Replace(a, 1, <<SubSeq(segs[a], 1, p - Start(a)) \o SubSeq(segs[a], p + n - Start(a) + 1, Len(segs[a]))>>))
         /\ op' = "einside"
    ELSE /\ segs' = NonEmpty(Replace(a, b - a + 1, <<SubSeq(segs[a], 1, p - Start(a)), SubSeq(segs[b], p + n - Start(b) + 1, Len(segs[b]))>>))
         /\ op' = "eacross"

Insert == \E p \in 0..Size, n \in 1..MaxIns :
            /\ Size + n <= MaxLen
            /\ \E vs \in [1..n -> Vals] :
                 /\ DoInsert(p, vs)
                 /\ Log(IF n = 1 THEN "insert 0 " \o ToString(p) \o " 0 0" ELSE "insert_range 0 " \o ToString(p) \o " " \o ToString(n) \o " 1")
Erase == \E p \in 0..Size, n \in 1..MaxLen :
            /\ p + n <= Size
            /\ DoErase(p, n)
            /\ Log("erase_range 0 " \o ToString(p) \o " " \o ToString(n) \o " 0")

Next == Insert \/ Erase
Spec == Init /\ [][Next]_vars
Bounded == Len(plan) < MaxDepth
Shape == [k \in 1..Len(segs) |-> Len(segs[k])]

SegmentsOK == \A k \in 1..Len(segs) : Len(segs[k]) \in 1..S
Refines == [][\/ \E p \in 0..Size, n \in 1..MaxIns : \E vs \in [1..n -> Vals] :
                   Abs' = SubSeq(Abs, 1, p) \o vs \o SubSeq(Abs, p + 1, Len(Abs))
              \/ \E p \in 0..Size, n \in 1..MaxLen : p + n <= Size /\ Abs' = SubSeq(Abs, 1, p) \o SubSeq(Abs, p + n + 1, Len(Abs))]_vars
=============================================================================
