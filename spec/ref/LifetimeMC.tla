----------------------------- MODULE LifetimeMC -----------------------------
EXTENDS Lifetime, Sequences
VARIABLES r, pend   \* pend: what each announcement in progress announces, innermost last
vars == <<r, pend>>
Init == \E k \in 0..1, s \in {Creating, Alive} : r = Born(k, s) /\ pend = <<>>
Announce == ~r.gone /\ Len(pend) < 4 /\ (\A i \in 1..Len(pend) : pend[i] # "del")
            /\ \E w \in {"ing", "ed"} \cup (IF pend = <<>> THEN {"del"} ELSE {}) : r' = Begin(r) /\ pend' = Append(pend, w)
Ing == \E s \in Stages : CanNoteIng(r, s) /\ r' = NoteIng(r, s) /\ UNCHANGED pend
Ed == \E s \in Stages : CanNoteEd(r, s) /\ r' = NoteEd(r, s) /\ UNCHANGED pend
Return == pend # <<>> /\ \E s \in Stages : EndOk(r, pend[Len(pend)], s) /\ r' = End(r, pend[Len(pend)], s) /\ pend' = SubSeq(pend, 1, Len(pend) - 1)
Live == pend = <<>> /\ ~r.gone /\ CanSetAlive(r) /\ r' = SetAlive(r) /\ UNCHANGED pend
Next == Announce \/ Ing \/ Ed \/ Return \/ Live
Spec == Init /\ [][Next]_vars
Monotone == [][r'.st >= r.st /\ r'.ing >= r.ing /\ r'.ed >= r.ed]_vars
InvAll == Inv(r)
\* an announcement in progress can always complete
CanFinish == pend # <<>> => ENABLED (Ing \/ Ed \/ Return)
=============================================================================
