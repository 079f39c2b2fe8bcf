------------------------------ MODULE HolderTrace ------------------------------
(* Recorded histories of optionals, variants and anys against Holder. *)
EXTENDS TraceBase, FiniteSets
VARIABLES slots
vars == <<l, slots>>
H == INSTANCE Holder
Tracked == {3, 4}   \* the kinds of value whose making and destruction are accounted for
Is(s) == slots' = s /\ Ev.slots = s /\ Ev.live = Cardinality(H!Holding(s, Tracked)) /\ Ev.bad = 0
TInit == l = 1 /\ slots = <<>>
Next ==
    \/ IsEvent("new") /\ Is(<<H!None, H!None, H!None>>)
    \/ IsEvent("set") /\ Is(H!Put(slots, Ev.h, <<Ev.k, Ev.v>>))
    \/ IsEvent("clear") /\ Is(H!Put(slots, Ev.h, H!None))
    \/ IsEvent("copy") /\ Is(H!Copy(slots, Ev.h, Ev.f))
    \/ IsEvent("move") /\ Is(H!Move(slots, Ev.h, Ev.f))
    \/ IsEvent("swap") /\ Is(H!Swap(slots, Ev.h, Ev.f))
    \/ IsEvent("compare") /\ Ev.order = H!Order(slots[Ev.h], slots[Ev.f]) /\ Ev.eq = (slots[Ev.h] = slots[Ev.f]) /\ UNCHANGED slots
    \/ IsEvent("orelse") /\ Ev.r = H!OrElse(slots[Ev.h], Ev.v) /\ UNCHANGED slots
    \/ IsEvent("value") /\ Ev.r = H!ValueAs(slots[Ev.h], Ev.k) /\ UNCHANGED slots
    \/ IsEvent("write") /\ Ev.none = (slots[Ev.h] = H!None) /\ Ev.r = slots[Ev.h][2] /\ UNCHANGED slots
    \* v: the number in the text; -1: '?'; -2: nothing is in it
    \/ IsEvent("read") /\ Ev.ok = (Ev.v # -2) /\ Is(IF Ev.v = -2 THEN slots ELSE H!Put(slots, Ev.h, IF Ev.v = -1 THEN H!None ELSE <<1, Ev.v>>))
    \/ IsEvent("end") /\ Ev.live = 0 /\ Ev.bad = 0 /\ UNCHANGED slots
Spec == TInit /\ [][Next]_vars
=============================================================================
