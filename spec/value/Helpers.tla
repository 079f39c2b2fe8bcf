-------------------------------- MODULE Helpers --------------------------------
(* Sorting through a swapper, stepping through a range, walking sequences in parallel, and guards that put things back. *)
EXTENDS Naturals, Integers, Sequences, FiniteSets, SequencesExt
----------------------------------------------------------------------------
\* Sorting.  a and b are sequences of <<key, label>>, the labels all different.
Ordered(b, down) == \A i \in 1..(Len(b) - 1) : IF down THEN b[i][1] >= b[i + 1][1] ELSE b[i][1] <= b[i + 1][1]
Rearranged(a, b) == Len(a) = Len(b) /\ {a[i] : i \in DOMAIN a} = {b[i] : i \in DOMAIN b}
SortedBy(a, b, down) == Ordered(b, down) /\ Rearranged(a, b)
----------------------------------------------------------------------------
\* Stepping from one number to another in n values: the exact values rounded to the nearest, or towards the start
Abs(x) == IF x < 0 THEN -x ELSE x
Ends(x, from, to) == x[1] = from /\ (Len(x) > 1 => x[Len(x)] = to)
Off(x, from, to, i) == Abs((x[i] - from) * (Len(x) - 1) - (to - from) * (i - 1))
Nearest(x, from, to) == Ends(x, from, to) /\ \A i \in DOMAIN x : 2 * Off(x, from, to, i) <= Len(x) - 1
Towards(x, from, to) == Ends(x, from, to) /\ \A i \in DOMAIN x : Len(x) > 1 => Off(x, from, to, i) < Len(x) - 1 /\ Abs(x[i] - from) * (Len(x) - 1) <= Abs(to - from) * (i - 1)
----------------------------------------------------------------------------
\* Guards.  A place has a value (None for nothing); guards are opened and closed last in, first out.
None == -1
Kinds == {"flag", "atomic", "counter", "pointer", "object", "optional", "optional_if", "deleter", "cleanup"}
\* what a place holds once a guard of a kind is opened on it with a value
Opened(kind, was, v) ==
    CASE kind = "counter" -> was + 1
      [] kind = "optional_if" -> IF was = None THEN v ELSE was
      [] kind \in {"deleter", "cleanup"} -> was
      [] OTHER -> v
\* and once it is closed: it holds now what is given
Closed(g, now) ==
    IF g.ignored THEN now
    ELSE CASE g.kind = "counter" -> now - 1
           [] g.kind = "deleter" -> None
           [] g.kind = "cleanup" -> now + 1
           [] OTHER -> g.was
=============================================================================
