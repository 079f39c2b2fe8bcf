------------------------------- MODULE PoolMC -------------------------------
(* A pool: chunks of Per elements obtained one at a time, and a list threaded through the elements not in use, kept in the
   elements' own memory.  In use elements hold what the user wrote, so the list must never run through them; an element
   is handed out from the head of the list, one given back becomes the head, and a chunk is obtained only when the list
   is empty.  Omega: elements given back are not reused until everything is recycled at once, chunks in order. *)
EXTENDS Integers, Sequences, FiniteSets
CONSTANTS Per, MaxChunks, Omega
VARIABLES chunks, mem, head, used, spare
vars == <<chunks, mem, head, used, spare>>
Cells == 1..(Per * MaxChunks)
Null == 0
Next1 == -1         \* "the next element of the chunk": what untouched omega memory says
User == -2
ChunkOf(c) == ((c - 1) \div Per) + 1
LastOf(k) == k * Per
Init == chunks = 0 /\ mem = [c \in Cells |-> User] /\ head = Null /\ used = {} /\ spare = 0
Grown(m) == LET k == chunks + 1 IN [c \in Cells |-> IF ChunkOf(c) # k THEN m[c] ELSE IF c = LastOf(k) THEN Null ELSE IF Omega THEN Next1 ELSE c + 1]
FirstOf(k) == (k - 1) * Per + 1
Take(m, c) == /\ used' = used \union {c}
              /\ head' = (IF m[c] = Next1 THEN c + 1 ELSE m[c])
              /\ mem' = [m EXCEPT ![c] = User]
Allocate == \/ /\ head # Null /\ Take(mem, head) /\ UNCHANGED chunks /\ spare' = IF spare > 0 THEN spare - 1 ELSE 0
            \/ /\ head = Null /\ chunks < MaxChunks /\ chunks' = chunks + 1 /\ Take(Grown(mem), FirstOf(chunks + 1)) /\ spare' = Per - 1
Deallocate == \E c \in used : used' = used \ {c} /\
                 IF Omega THEN UNCHANGED <<chunks, mem, head, spare>>
                 ELSE mem' = [mem EXCEPT ![c] = head] /\ head' = c /\ spare' = spare + 1 /\ UNCHANGED chunks
\* the chunks are linked in the order the last obtained first
Recycle == /\ Omega /\ chunks > 0 /\ used' = {} /\ UNCHANGED chunks /\ spare' = chunks * Per
           /\ head' = FirstOf(chunks)
           /\ mem' = [c \in Cells |-> IF ChunkOf(c) > chunks THEN mem[c] ELSE IF c # LastOf(ChunkOf(c)) THEN Next1 ELSE IF ChunkOf(c) = 1 THEN Null ELSE FirstOf(ChunkOf(c) - 1)]
Next == Allocate \/ Deallocate \/ Recycle
Spec == Init /\ [][Next]_vars
RECURSIVE Walk(_, _)
Walk(c, n) == IF c = Null \/ n = 0 THEN <<>> ELSE <<c>> \o Walk(IF mem[c] = Next1 THEN c + 1 ELSE mem[c], n - 1)
List == Walk(head, Per * MaxChunks + 1)
Disjoint == \A i \in 1..Len(List) : List[i] \notin used /\ List[i] # User /\ ChunkOf(List[i]) \in 1..chunks /\ \A j \in 1..Len(List) : List[i] = List[j] => i = j
\* nothing is lost: what was given back (or never handed out) is on the list
Complete == Len(List) = spare
NotOmega == ~Omega => Len(List) + Cardinality(used) = chunks * Per
=============================================================================
