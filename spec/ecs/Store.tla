------------------------------- MODULE Store -------------------------------
(* A component store: a finite map from entities to their records.  A state is                        *)
(*   [rec   |-> entity -> value,                                                                      *)
(*    snap  |-> entity -> value,   \* the contents as of the last snapshot                            *)
(*    taken |-> whether there is a snapshot at all,                                                   *)
(*    held  |-> how many users are reading the snapshot]                                              *)
(* Removing an entity's record also takes it out of the snapshot, nothing else changes a snapshot     *)
(* and taking one anew is put off while somebody is reading it.                                       *)
EXTENDS Integers, Sequences, FiniteSets
None == [x \in {} |-> 0]
Fresh == [rec |-> None, snap |-> None, taken |-> FALSE, held |-> 0]
Has(m, e) == e \in DOMAIN m
With(m, e, v) == [x \in DOMAIN m \cup {e} |-> IF x = e THEN v ELSE m[x]]
Without(m, e) == [x \in DOMAIN m \ {e} |-> m[x]]

Put(s, e, v) == [s EXCEPT !.rec = With(@, e, v)]
Make(s, e, v0) == IF Has(s.rec, e) THEN s ELSE Put(s, e, v0)
Del(s, e) == [s EXCEPT !.rec = Without(@, e), !.snap = Without(@, e)]
Take(s) == IF s.held > 0 THEN s ELSE [s EXCEPT !.snap = s.rec, !.taken = TRUE]
Hold(s) == [s EXCEPT !.held = @ + 1]
Drop(s) == [s EXCEPT !.held = @ - 1]
Bump(s, F(_)) == [s EXCEPT !.rec = [e \in DOMAIN @ |-> F(@[e])]]

\* q lists the records of m: every one of them exactly once and with its own entity
Lists(q, m) == Len(q) = Cardinality(DOMAIN m) /\ {q[i] : i \in 1..Len(q)} = {<<e, m[e]>> : e \in DOMAIN m}
Sorted(q, down) == \A i \in 1..(Len(q) - 1) : IF down THEN q[i][2] >= q[i + 1][2] ELSE q[i][2] <= q[i + 1][2]
=============================================================================
