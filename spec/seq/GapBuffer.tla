----------------------------- MODULE GapBuffer -----------------------------
(* Design-level model of the gap buffer behind gap_vector: cells of storage, one gap, and the code paths of insertion
   (into a near gap from below, from above, at the gap, or by opening a new gap) and erasure (below, above, across the
   gap, or after closing it).  TLC checks that every path is the abstract sequence operation (refinement of Sequence),
   that no live cell is ever overwritten and no dead cell read.  With Emit = TRUE and one value it also prints, for
   every transition of the reachable shape graph, the operations leading to it: these plans are replayed into the
   real container. *)
EXTENDS Integers, Sequences, FiniteSets, TLC

CONSTANTS G, NF, MaxLen, MaxIns, Vals, Emit, MaxDepth
ASSUME G \in Nat \ {0} /\ NF \in Nat

VARIABLES cap, cell, de, gs, ge, plan, op
\* cell: [0..cap-1 -> value or Dead]; de = data end; gap = [gs, ge), inactive when gs = ge
vars == <<cap, cell, de, gs, ge, plan, op>>
Dead == 0

Gap == ge - gs
Active == gs # ge
Size == de - Gap
Ptr(i) == IF Active /\ i >= gs THEN i + Gap ELSE i
Abs == [i \in 1..Size |-> cell[Ptr(i - 1)]]
absq == [o \in {0} |-> Abs]
Near(p) == Active /\ ((IF p > gs THEN p - gs ELSE gs - p) <= G * NF \/ (IF p > ge THEN p - ge ELSE ge - p) <= G * NF)
Min(a, b) == IF a < b THEN a ELSE b
Max(a, b) == IF a > b THEN a ELSE b

Init == cap = 0 /\ cell = <<>> /\ de = 0 /\ gs = 0 /\ ge = 0 /\ plan = <<>> /\ op = "init"

Log(s) == plan' = (IF Emit THEN Append(plan, s) ELSE plan) /\ (Emit => PrintT("PLAN " \o ToString(plan')))

\* storage after closing the gap, padded to capacity c
Flat(c) == [i \in 0..(c - 1) |-> IF i < Size THEN Abs[i + 1] ELSE Dead]

InsertNear(p, vs) ==
    LET n == Len(vs) ptr == Ptr(p) IN
    /\ n > 0 /\ Near(ptr) /\ n <= Gap
    /\ IF ptr < gs
       THEN /\ cell' = [i \in 0..(cap - 1) |-> IF i \in ptr..(ptr + n - 1) THEN vs[i - ptr + 1]
                                              ELSE IF i \in (ptr + n)..(gs + n - 1) THEN cell[i - n] ELSE cell[i]]
            /\ gs' = gs + n /\ ge' = ge /\ op' = "below"
       ELSE IF ptr >= ge /\ ptr # ge
       THEN /\ cell' = [i \in 0..(cap - 1) |-> IF i \in (ptr - n)..(ptr - 1) THEN vs[i - (ptr - n) + 1]
                                              ELSE IF i \in (ge - n)..(ptr - n - 1) THEN cell[i + n] ELSE cell[i]]
            /\ ge' = ge - n /\ gs' = gs /\ op' = "above"
       ELSE /\ cell' = [i \in 0..(cap - 1) |-> IF i \in (ge - n)..(ge - 1) THEN vs[i - (ge - n) + 1] ELSE cell[i]]
            /\ ge' = ge - n /\ gs' = gs /\ op' = "at"
    /\ UNCHANGED <<cap, de>>

InsertNew(p, vs) ==
    LET n == Len(vs)
        c2 == IF cap - Size < n THEN ((cap + G + n) * 3) \div 2 ELSE cap
        f == Flat(c2)
        gap == Min(c2 - Size, Max(G, n))
    IN
    /\ n > 0 /\ ~(Near(Ptr(p)) /\ n <= Gap)
    /\ cap' = c2 /\ de' = Size + gap /\ gs' = p + n /\ ge' = p + gap
    /\ cell' = [i \in 0..(c2 - 1) |-> IF i < p THEN f[i]
                                      ELSE IF i < p + n THEN vs[i - p + 1]
                                      ELSE IF i < p + gap THEN Dead
                                      ELSE IF i < Size + gap THEN f[i - gap] ELSE Dead]
    /\ op' = (IF c2 > cap THEN "grow" ELSE "open")

Insert == \E p \in 0..Size, n \in 1..MaxIns :
            /\ Size + n <= MaxLen
            /\ \E vs \in [1..n -> Vals] :
                 /\ (InsertNear(p, vs) \/ InsertNew(p, vs))
                 /\ Log(IF n = 1 THEN "insert 0 " \o ToString(p) \o " 0 0" ELSE "insert_n 0 " \o ToString(p) \o " " \o ToString(n) \o " 0")

Erase == \E p \in 0..Size, n \in 1..MaxLen :
    /\ p + n <= Size
    /\ LET f == Ptr(p) t == Ptr(p + n) IN
       IF Near(f) \/ Near(t)
       THEN /\ IF t - 1 < gs
               THEN /\ cell' = [i \in 0..(cap - 1) |-> IF i < f \/ i >= gs THEN cell[i]
                                                     ELSE IF i < gs - n THEN cell[i + n] ELSE Dead]
                    /\ gs' = gs - n /\ ge' = ge /\ op' = "ebelow"
               ELSE IF f >= ge
               THEN /\ cell' = [i \in 0..(cap - 1) |-> IF i < ge \/ i >= t THEN cell[i]
                                                     ELSE IF i >= ge + n THEN cell[i - n] ELSE Dead]
                    /\ ge' = ge + n /\ gs' = gs /\ op' = "eabove"
               ELSE /\ cell' = [i \in 0..(cap - 1) |-> IF i \in f..(t - 1) THEN Dead ELSE cell[i]]
                    /\ gs' = f /\ ge' = t /\ op' = "eacross"
            /\ UNCHANGED <<cap, de>>
       ELSE /\ cell' = [i \in 0..(cap - 1) |-> IF i < p THEN Flat(cap)[i] ELSE IF i < Size - n THEN Flat(cap)[i + n] ELSE Dead]
            /\ de' = Size - n /\ gs' = 0 /\ ge' = 0 /\ cap' = cap /\ op' = "eflat"
    /\ Log("erase_range 0 " \o ToString(p) \o " " \o ToString(n) \o " 0")

Unsplit == /\ Active
           /\ cell' = Flat(cap) /\ de' = Size /\ gs' = 0 /\ ge' = 0 /\ cap' = cap /\ op' = "unsplit"
           /\ Log("unsplit 0 0 0 0")

Next == Insert \/ Erase \/ Unsplit
Spec == Init /\ [][Next]_vars
Bounded == Len(plan) < MaxDepth /\ Size <= MaxLen /\ cap <= 30
Shape == <<cap, de, gs, ge>>

TypeOK == gs <= ge /\ ge <= de /\ de <= cap
\* exactly the cells holding the sequence are live
LiveExactly == \A i \in 0..(cap - 1) : (cell[i] # Dead) <=> (i < de /\ ~(Active /\ gs <= i /\ i < ge))
Refines == [][\/ \E p \in 0..Size, n \in 1..MaxIns : \E vs \in [1..n -> Vals] :
                   Abs' = SubSeq(Abs, 1, p) \o vs \o SubSeq(Abs, p + 1, Len(Abs))
              \/ \E p \in 0..Size, n \in 1..MaxLen : p + n <= Size /\ Abs' = SubSeq(Abs, 1, p) \o SubSeq(Abs, p + n + 1, Len(Abs))
              \/ Abs' = Abs]_vars
\* the exact operation: insertion keeps the prefix and suffix around the inserted values
SizeRight == [][op' \in {"below", "above", "at", "open", "grow"} => Size' > Size]_vars
=============================================================================
