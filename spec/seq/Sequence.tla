------------------------------ MODULE Sequence ------------------------------
(* Abstract mutable sequences: the meaning of every sequence container of the library (gap buffer, segmented array,
   small-buffer vector, polymorphic vector/list/deque).  Two objects so that copy, move, swap and comparison are
   covered.  Positions are 0-based as in the interface. *)
EXTENDS Integers, Sequences

CONSTANT Objs
VARIABLE q            \* q[o] is the current contents of object o

SInit == q = [o \in Objs |-> <<>>]

InsertAt(s, p, vs) == SubSeq(s, 1, p) \o vs \o SubSeq(s, p + 1, Len(s))
EraseAt(s, p, n)   == SubSeq(s, 1, p) \o SubSeq(s, p + n + 1, Len(s))
Resized(s, n, v)   == IF n <= Len(s) THEN SubSeq(s, 1, n) ELSE s \o [i \in 1..(n - Len(s)) |-> v]
Reversed(s)        == [i \in 1..Len(s) |-> s[Len(s) + 1 - i]]
LexLess(s, t) ==
    LET n == IF Len(s) < Len(t) THEN Len(s) ELSE Len(t)
        d == {i \in 1..n : s[i] # t[i]}
    IN IF d = {} THEN Len(s) < Len(t)
       ELSE LET m == CHOOSE i \in d : \A j \in d : i <= j IN s[m] < t[m]

Assign(o, vs)    == q' = [q EXCEPT ![o] = vs]
Insert(o, p, vs) == p \in 0..Len(q[o]) /\ q' = [q EXCEPT ![o] = InsertAt(@, p, vs)]
Erase(o, p, n)   == p >= 0 /\ n >= 0 /\ p + n <= Len(q[o]) /\ q' = [q EXCEPT ![o] = EraseAt(@, p, n)]
Resize(o, n, v)  == q' = [q EXCEPT ![o] = Resized(@, n, v)]
Set(o, p, v)     == p \in 0..(Len(q[o]) - 1) /\ q' = [q EXCEPT ![o][p + 1] = v]
Copy(o, from)    == q' = [q EXCEPT ![o] = q[from]]
\* the source of a move is left valid but unspecified
Move(o, from, left) == o # from /\ q' = [q EXCEPT ![o] = q[from], ![from] = left]
Swap(a, b)       == q' = [q EXCEPT ![a] = q[b], ![b] = q[a]]
Observe          == UNCHANGED q
=============================================================================
