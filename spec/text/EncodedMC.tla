------------------------------- MODULE EncodedMC -------------------------------
(* Every value of a small width is found again in the shortest form that says it; the order of versions is one. *)
EXTENDS Encoded
CONSTANTS Width, Deep
VARIABLES v, w
vars == <<v, w>>
Numbers == [1..Width -> 0..1]
Few == {Zero, <<1>>, <<9>>, <<1, 0>>} \cup (IF Deep THEN {<<2>>, <<9, 9>>} ELSE {})
Versions == [n : {<<a, b, c, d>> : a \in Few, b \in Few, c \in Few, d \in Few}, name : {<<>>, <<97>>, <<98, 46, 50, 32, 120>>}]
Codes(n) == {[i \in 1..n |-> e[i] + (IF i < n THEN 128 ELSE 0)] : e \in [1..n -> {0, 1, 63, 64, 127}]}
TInit == v \in Numbers /\ w \in {NoVersion}
Next == v = [i \in 1..Width |-> 0] /\ w = NoVersion /\ v' = v /\ w' \in Versions
Spec == TInit /\ [][Next]_vars
UBack == WellFormed(Uleb(v)) /\ URead(Uleb(v), Width) = v
SBack == WellFormed(Sleb(v)) /\ SRead(Sleb(v), Width) = v
\* no shorter form says the same
UShort == \A n \in 1..(Len(Uleb(v)) - 1) : \A e \in Codes(n) : URead(e, Width) # v
SShort == \A n \in 1..(Len(Sleb(v)) - 1) : \A e \in Codes(n) : SRead(e, Width) # v
VBack == VersionRead(VersionText(w)) = w /\ VersionRead(VersionBrief(w)) = w
Pivots == {NoVersion, [n |-> <<<<1>>, Zero, <<9>>, Zero>>, name |-> <<>>], [n |-> <<<<1>>, <<9>>, Zero, <<1, 0>>>>, name |-> <<>>]}
Total == \A p \in Pivots : Cardinality({q \in {1, 2, 3} : (q = 1 /\ VersionLess(w, p)) \/ (q = 2 /\ VersionSame(w, p)) \/ (q = 3 /\ VersionLess(p, w))}) = 1
Transitive == \A p, q \in Pivots : VersionLess(w, p) /\ VersionLess(p, q) => VersionLess(w, q)
=============================================================================
