-------------------------------- MODULE Holder --------------------------------
(* Holders of one value or none (optional, variant, any). A holder is <<kind, value>>; <<0, 0>> holds nothing. *)
EXTENDS Integers, Sequences
None == <<0, 0>>
Put(s, h, x) == [s EXCEPT ![h] = x]
Copy(s, h, f) == [s EXCEPT ![h] = s[f]]
Move(s, h, f) == IF h = f THEN s ELSE [s EXCEPT ![h] = s[f], ![f] = None]
Swap(s, h, f) == [s EXCEPT ![h] = s[f], ![f] = s[h]]
\* nothing comes before something; then the kinds, then the values
Order(x, y) == IF x[1] # y[1] THEN (IF x[1] < y[1] THEN -1 ELSE 1) ELSE IF x[2] # y[2] THEN (IF x[2] < y[2] THEN -1 ELSE 1) ELSE 0
ValueAs(x, k) == IF x[1] = k THEN x[2] ELSE -1      \* -1: refused
OrElse(x, v) == IF x = None THEN v ELSE x[2]
Holding(s, kinds) == {h \in DOMAIN s : s[h][1] \in kinds}
=============================================================================
