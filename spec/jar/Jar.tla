-------------------------------- MODULE Jar --------------------------------
(* A jar: a sequence of items <<cookie, value>> plus the cookies handed out but not used yet.  Counted cookies: a set of
   holders, each holding one cookie or none; an item is removed when its last holder lets go of it. *)
EXTENDS Integers, Sequences, FiniteSets
None == 0
Empty == [items |-> <<>>, reserved |-> {}]
Cookies(s) == {s[i][1] : i \in 1..Len(s)}
Live(j) == Cookies(j.items)
Used(j) == Live(j) \cup j.reserved
Where(s, c) == IF c \in Cookies(s) THEN (CHOOSE i \in 1..Len(s) : s[i][1] = c) - 1 ELSE Len(s)    \* position, or the end
Value(s, c) == IF c \in Cookies(s) THEN s[Where(s, c) + 1][2] ELSE -1
Free(j, c, cap) == c # None /\ c <= cap /\ c \notin Used(j)
Exhausted(j, cap) == Cardinality(Used(j)) = cap
Put(j, c, v) == [items |-> Append(j.items, <<c, v>>), reserved |-> j.reserved \ {c}]
Reserve(j, c) == [j EXCEPT !.reserved = @ \cup {c}]
Return(j, c) == [j EXCEPT !.reserved = @ \ {c}]
Change(j, c, v) == [j EXCEPT !.items[Where(j.items, c) + 1] = <<c, v>>]
\* removing the item at position p may reorder what follows it but loses nothing, and what precedes it stays
Without(s, p) == SubSeq(s, 1, p) \o SubSeq(s, p + 2, Len(s))
Range(s) == {s[i] : i \in 1..Len(s)}
Removed(s, p, t) == Len(t) = Len(s) - 1 /\ SubSeq(t, 1, p) = SubSeq(s, 1, p) /\ Range(t) = Range(Without(s, p))
\* holders h (a function to cookies), items removed when the last holder leaves
Count(h, c) == Cardinality({x \in DOMAIN h : h[x] = c})
Gone(h, h2) == {c \in {h[x] : x \in DOMAIN h} \ {None} : Count(h2, c) = 0}
=============================================================================
