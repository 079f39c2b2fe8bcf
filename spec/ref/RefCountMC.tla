---------------------------- MODULE RefCountMC ----------------------------
(* Exhaustive small model: whatever the order of operations, a counted slot never refers to a dead object, a dead
   object never comes back, nothing without references stays alive unless pinned or handed out, and weak slots never
   prolong a life. *)
EXTENDS RefCount
CONSTANT MaxRaw
VARIABLES st, made, loose
vars == <<st, made, loose>>
Init == st = Start /\ made = 0 /\ loose = {}
US == {s \in AllSlots : Usable(st, s)}
Is(x) == st' = x /\ UNCHANGED <<made, loose>>
DoNew == made < MaxObj /\ made' = made + 1 /\ \E s \in US : st' = New(st, s, made + 1) /\ UNCHANGED loose
DoCopy == \E s, f \in US : s # f /\ Is(Copy(st, s, f))
DoMove == \E s, f \in US : Is(Move(st, s, f))
DoSwap == \E s, f \in US : s < f /\ Is(Swap(st, s, f))
DoReset == \E s \in US : Is(Reset(st, s))
DoAlias == \E s \in US, f \in US, p \in st.alive, mv \in BOOLEAN : Is(Alias(st, s, f, p, mv))
DoResetTo == \E s \in US, o \in st.alive : st' = ResetTo(st, s, o, o) /\ loose' = loose \ {o} /\ UNCHANGED made
DoDetach == \E s \in US : st.sl[s].c /\ st.raw[st.sl[s].m] < MaxRaw /\ Is(Detach(st, s))
DoRelease == \E s \in US : st.sl[s].c /\ MayRelease(st, s) /\ st' = Release(st, s) /\ loose' = loose \cup {st.sl[s].m} /\ UNCHANGED made
DoAddRef == \E o \in st.alive : st.raw[o] < MaxRaw /\ st' = AddRef(st, o) /\ loose' = loose \ {o} /\ UNCHANGED made
DoDropRef == \E o \in st.alive : st.raw[o] > 0 /\ Is(DropRef(st, o))
DoAdopt == \E s \in US, o \in st.alive : st.raw[o] > 0 /\ Is(Adopt(st, s, o))
DoPin == \E o \in st.alive \ st.pin : Is(Pin(st, o))
DoUnpin == \E o \in st.pin : st' = Unpin(st, o) /\ loose' = loose \ {o} /\ UNCHANGED made
DoObserve == \E w \in Weaks, o \in st.alive : Is(Observe(st, w, o))
DoUpgrade == \E w \in Weaks, s \in US : (st.wk[w] \notin loose) /\ Is(Upgrade(st, s, w))
Next == DoNew \/ DoCopy \/ DoMove \/ DoSwap \/ DoReset \/ DoAlias \/ DoResetTo \/ DoDetach \/ DoRelease \/ DoAddRef \/ DoDropRef
        \/ DoAdopt \/ DoPin \/ DoUnpin \/ DoObserve \/ DoUpgrade
Spec == Init /\ [][Next]_vars
NoDangling == \A s \in AllSlots : st.sl[s].c => st.sl[s].m \in st.alive
DeadOnce == st.alive \cap st.dead = {} /\ st.alive \cup st.dead = 1..made
NoZombie == \A o \in st.alive : Uses(st, o) > 0 \/ o \in st.pin \/ o \in loose
DeadEmpty == \A o \in st.dead : st.sl[NextOf(o)] = Empty /\ st.raw[o] = 0
NoReturn == [][st.dead \subseteq st'.dead]_vars
=============================================================================
