------------------------------- MODULE HolderMC -------------------------------
(* Holders which keep their values in objects made and destroyed as they are: each holder's object is its own. *)
EXTENDS Integers, Sequences, FiniteSets
CONSTANTS Slots, Kinds, Values, MaxObjects
VARIABLES slots, object, live, next
vars == <<slots, object, live, next>>
H == INSTANCE Holder
Objs(o) == {o[h] : h \in DOMAIN o} \ {0}
Init == slots = [h \in 1..Slots |-> H!None] /\ object = [h \in 1..Slots |-> 0] /\ live = {} /\ next = 1
\* a fresh object for h; the one it had is destroyed
Fresh(h) == next <= MaxObjects /\ object' = [object EXCEPT ![h] = next] /\ next' = next + 1 /\ live' = (live \ {object[h]}) \cup {next}
Drop(h) == object' = [object EXCEPT ![h] = 0] /\ live' = live \ {object[h]} /\ UNCHANGED next
Set == \E h \in 1..Slots, k \in Kinds, v \in Values : slots' = H!Put(slots, h, <<k, v>>) /\ Fresh(h)
Clear == \E h \in 1..Slots : slots[h] # H!None /\ slots' = H!Put(slots, h, H!None) /\ Drop(h)
Copy == \E h, f \in 1..Slots : h # f /\ slots' = H!Copy(slots, h, f) /\ IF slots[f] = H!None THEN Drop(h) ELSE Fresh(h)
Move == \E h, f \in 1..Slots : h # f /\ slots' = H!Move(slots, h, f) /\ object' = [object EXCEPT ![h] = object[f], ![f] = 0] /\ live' = live \ {object[h]} /\ UNCHANGED next
Swap == \E h, f \in 1..Slots : h # f /\ slots' = H!Swap(slots, h, f) /\ object' = [object EXCEPT ![h] = object[f], ![f] = object[h]] /\ UNCHANGED <<live, next>>
Next == Set \/ Clear \/ Copy \/ Move \/ Swap
Spec == Init /\ [][Next]_vars
Owned == live \ {0} = Objs(object) /\ Cardinality(Objs(object)) = Cardinality(H!Holding(slots, Kinds))
Counted == \A h \in 1..Slots : (object[h] = 0) = (slots[h] = H!None)
Ordered == \A x, y, z \in {slots[h] : h \in 1..Slots} : H!Order(x, y) = -H!Order(y, x) /\ (H!Order(x, y) <= 0 /\ H!Order(y, z) <= 0 => H!Order(x, z) <= 0) /\ (H!Order(x, y) = 0 => x = y)
=============================================================================
