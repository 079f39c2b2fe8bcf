------------------------------ MODULE TagArray ------------------------------
(* A sequence of elements each of which belongs to a tag (tag_array): <<tag, value>>. *)
EXTENDS Integers, Sequences
Tagged(g, xs) == [i \in 1..Len(xs) |-> <<g, xs[i]>>]
Insert(s, p, xs) == SubSeq(s, 1, p) \o xs \o SubSeq(s, p + 1, Len(s))
Erase(s, p, n) == SubSeq(s, 1, p) \o SubSeq(s, p + n + 1, Len(s))
SetValue(s, p, v) == [s EXCEPT ![p + 1] = <<s[p + 1][1], v>>]
Values(s) == [i \in 1..Len(s) |-> s[i][2]]
Reversed(s) == [i \in 1..Len(s) |-> s[Len(s) + 1 - i]]
=============================================================================
