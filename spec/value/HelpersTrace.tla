------------------------------ MODULE HelpersTrace ------------------------------
(* Recorded sorting, stepping, walking and guarding against Helpers. *)
EXTENDS TraceBase, FiniteSets
VARIABLES place, open
vars == <<l, place, open>>
H == INSTANCE Helpers
TInit == l = 1 /\ place = 0 /\ open = <<>>
Top == open[Len(open)]
Next ==
    \* the labels were moved by the swapper alone and still go with their keys
    \/ IsEvent("sort") /\ H!SortedBy(Ev.a, Ev.b, Ev.down) /\ Ev.labels = [i \in DOMAIN Ev.b |-> Ev.b[i][2]] /\ UNCHANGED <<place, open>>
    \/ IsEvent("step") /\ (IF Ev.alt THEN H!Towards(Ev.x, Ev.from, Ev.to) ELSE H!Nearest(Ev.x, Ev.from, Ev.to)) /\ UNCHANGED <<place, open>>
    \* two sequences side by side: the pairs met going forwards, backwards, and at a place; distances and order; what was written through it
    \/ IsEvent("zip") /\ UNCHANGED <<place, open>>
        /\ LET n == Len(Ev.a) pairs == [i \in 1..n |-> <<Ev.a[i], Ev.b[i]>>]
           IN Ev.forwards = pairs /\ Ev.backwards = [i \in 1..n |-> pairs[n + 1 - i]] /\ Ev.at = pairs[Ev.i] /\ Ev.back = pairs[Ev.i] /\ Ev.dist = n
              /\ Ev.less = (Ev.i < Ev.j) /\ Ev.eq = (Ev.i = Ev.j) /\ Ev.ne = (Ev.i # Ev.j)
              /\ Ev.wa = [Ev.a EXCEPT ![Ev.i] = 77] /\ Ev.wb = [Ev.b EXCEPT ![Ev.i] = 78]
              /\ Ev.sa = [Ev.a EXCEPT ![Ev.i] = Ev.a[Ev.j], ![Ev.j] = Ev.a[Ev.i]] /\ Ev.sb = [Ev.b EXCEPT ![Ev.i] = Ev.b[Ev.j], ![Ev.j] = Ev.b[Ev.i]]
    \/ IsEvent("place") /\ open = <<>> /\ place' = Ev.v /\ open' = open
    \/ IsEvent("open") /\ place' = H!Opened(Ev.kind, place, Ev.to) /\ open' = Append(open, [kind |-> Ev.kind, was |-> place, ignored |-> FALSE]) /\ Ev.v = place' /\ ("saved" \in DOMAIN Ev => Ev.saved = place)
    \/ IsEvent("ignore") /\ open' = [open EXCEPT ![Len(open)].ignored = TRUE] /\ place' = place /\ Ev.v = place
    \* changed while guarded
    \/ IsEvent("set") /\ place' = Ev.v /\ open' = open
    \/ IsEvent("close") /\ place' = H!Closed(Top, place) /\ open' = SubSeq(open, 1, Len(open) - 1) /\ Ev.v = place' /\ Ev.live = (IF place' = H!None THEN 0 ELSE 1)
    \/ IsEvent("end") /\ UNCHANGED <<place, open>>
Spec == TInit /\ [][Next]_vars
=============================================================================
