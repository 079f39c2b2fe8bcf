------------------------------ MODULE StoreMC ------------------------------
(* The packed representation of a component store, the one the library uses: the records lie side by  *)
(* side with the entities which own them, a reverse index leads from an entity to its place, a record *)
(* is removed by moving the last one into its place, and sorting swaps two records at a time.  It     *)
(* implements Store.                                                                                  *)
EXTENDS Integers, Sequences, FiniteSets
CONSTANTS Entities, Values, MaxHeld
VARIABLES data, own, rev, sdata, sown, srev, a
X == INSTANCE Store
vars == <<data, own, rev, sdata, sown, srev, a>>
NoWhere == [e \in Entities |-> 0]
Init == data = <<>> /\ own = <<>> /\ rev = NoWhere /\ sdata = <<>> /\ sown = <<>> /\ srev = NoWhere /\ a = X!Fresh
Snap == UNCHANGED <<sdata, sown, srev>>
Put(e, v) == /\ a' = X!Put(a, e, v) /\ Snap
             /\ IF rev[e] # 0 THEN data' = [data EXCEPT ![rev[e]] = v] /\ UNCHANGED <<own, rev>>
                ELSE data' = Append(data, v) /\ own' = Append(own, e) /\ rev' = [rev EXCEPT ![e] = Len(data) + 1]
Cut(q, at) == SubSeq([q EXCEPT ![at] = q[Len(q)]], 1, Len(q) - 1)
Moved(r, o, e) == [[r EXCEPT ![o[Len(o)]] = r[e]] EXCEPT ![e] = 0]
Del(e) == /\ rev[e] # 0 /\ a' = X!Del(a, e)
          /\ data' = Cut(data, rev[e]) /\ own' = Cut(own, rev[e]) /\ rev' = Moved(rev, own, e)
          /\ IF srev[e] # 0 THEN sdata' = Cut(sdata, srev[e]) /\ sown' = Cut(sown, srev[e]) /\ srev' = Moved(srev, sown, e) ELSE Snap
Swap(i, j) == /\ i < j /\ j <= Len(data) /\ UNCHANGED a /\ Snap
              /\ data' = [data EXCEPT ![i] = data[j], ![j] = data[i]] /\ own' = [own EXCEPT ![i] = own[j], ![j] = own[i]]
              /\ rev' = [rev EXCEPT ![own[i]] = j, ![own[j]] = i]
Take == a' = X!Take(a) /\ UNCHANGED <<data, own, rev>> /\ IF a.held > 0 THEN Snap ELSE sdata' = data /\ sown' = own /\ srev' = rev
Use == UNCHANGED <<data, own, rev>> /\ Snap /\ ((a.taken /\ a.held < MaxHeld /\ a' = X!Hold(a)) \/ (a.held > 0 /\ a' = X!Drop(a)))
Next == \/ \E e \in Entities : Del(e) \/ \E v \in Values : Put(e, v)
        \/ \E i, j \in 1..Cardinality(Entities) : Swap(i, j)
        \/ Take \/ Use
Spec == Init /\ [][Next]_vars
Zip(d, o) == [i \in 1..Len(d) |-> <<o[i], d[i]>>]
Packed(d, o, r) == Len(d) = Len(o) /\ (\A i \in 1..Len(o) : r[o[i]] = i) /\ \A e \in Entities : r[e] # 0 => o[r[e]] = e
Implements == Packed(data, own, rev) /\ Packed(sdata, sown, srev) /\ X!Lists(Zip(data, own), a.rec) /\ (a.taken => X!Lists(Zip(sdata, sown), a.snap))
=============================================================================
