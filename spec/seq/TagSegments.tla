---------------------------- MODULE TagSegments ----------------------------
(* How a tag_array keeps its elements: segments of at most Cap elements, each belonging to one tag. An insertion goes into
   the segment it falls in (or the one before, at a boundary) if the tag is the same and there is room; otherwise the
   segment is split there and the elements go into new segments of their own. Segments emptied by an erasure go away.
   The segments always show exactly the elements the abstract sequence has. *)
EXTENDS TagArray
CONSTANTS Cap, MaxLen, Tags, MaxRun
VARIABLES segs, s
vars == <<segs, s>>
RECURSIVE Flat(_)
Flat(g) == IF g = <<>> THEN <<>> ELSE Tagged(g[1][1], g[1][2]) \o Flat(Tail(g))
RECURSIVE Chunks(_, _)
Chunks(tag, xs) == IF xs = <<>> THEN <<>> ELSE LET n == IF Len(xs) < Cap THEN Len(xs) ELSE Cap IN <<<<tag, SubSeq(xs, 1, n)>>>> \o Chunks(tag, SubSeq(xs, n + 1, Len(xs)))
RECURSIVE Start(_, _)
Start(g, k) == IF k = 1 THEN 0 ELSE Start(g, k - 1) + Len(g[k - 1][2])
Room(g, k, tag, n) == g[k][1] = tag /\ Len(g[k][2]) + n <= Cap
Put(x, o, xs) == SubSeq(x, 1, o) \o xs \o SubSeq(x, o + 1, Len(x))
Drop(g) == SelectSeq(g, LAMBDA x : x[2] # <<>>)
Runs == UNION {[1..n -> {0}] : n \in 1..MaxRun}
DoInsert == \E tag \in Tags, xs \in Runs :
    /\ Len(s) + Len(xs) <= MaxLen
    /\ IF segs = <<>> THEN segs' = Chunks(tag, xs) /\ s' = Insert(s, 0, Tagged(tag, xs))
       ELSE \E k \in 1..Len(segs) : \E o \in 0..Len(segs[k][2]) :
              /\ s' = Insert(s, Start(segs, k) + o, Tagged(tag, xs))
              /\ IF Room(segs, k, tag, Len(xs)) THEN segs' = [segs EXCEPT ![k][2] = Put(@, o, xs)]
                 ELSE IF o = 0 /\ k > 1 /\ Room(segs, k - 1, tag, Len(xs)) THEN segs' = [segs EXCEPT ![k - 1][2] = @ \o xs]
                 ELSE LET h == <<segs[k][1], SubSeq(segs[k][2], 1, o)>> r == <<segs[k][1], SubSeq(segs[k][2], o + 1, Len(segs[k][2]))>>
                      IN segs' = Drop(SubSeq(segs, 1, k - 1) \o <<h>> \o Chunks(tag, xs) \o <<r>> \o SubSeq(segs, k + 1, Len(segs)))
DoErase == \E p \in 0..(Len(s) - 1) : \E n \in 1..(Len(s) - p) :
    /\ s' = Erase(s, p, n)
    /\ segs' = Drop([k \in 1..Len(segs) |-> LET b == Start(segs, k) x == segs[k][2] IN
                       <<segs[k][1], [j \in 1..Len(SelectSeq([i \in 1..Len(x) |-> b + i], LAMBDA i : i <= p \/ i > p + n)) |-> 0]>>])
Init == segs = <<>> /\ s = <<>>
Next == DoInsert \/ DoErase
Spec == Init /\ [][Next]_vars
Same == Flat(segs) = s
Sound == \A k \in 1..Len(segs) : segs[k][2] # <<>> /\ Len(segs[k][2]) <= Cap /\ segs[k][1] \in Tags
=============================================================================
