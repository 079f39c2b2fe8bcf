--------------------------- MODULE SequenceTrace ---------------------------
(* Validates recorded histories of a sequence container against Sequence: after every call, the contents seen through
   iteration, size, index, reverse iteration, comparison and the number of elements alive are those of the model. *)
EXTENDS TraceBase

VARIABLE q
S == INSTANCE Sequence WITH Objs <- {0, 1}
vars == <<q, l>>

Has(f) == f \in DOMAIN Ev
Total(m) == Len(m[0]) + Len(m[1])

\* what is logged with every event, against the state after it
Observed(m) ==
    /\ Ev.obs[1] = m[0] /\ Ev.obs[2] = m[1]
    /\ Ev.sizes[1] = Len(m[0]) /\ Ev.sizes[2] = Len(m[1])
    /\ Has("emp") => \A k \in {1, 2} : (Ev.emp[k] = 1) = (Len(m[k - 1]) = 0)
    /\ Has("live") => Ev.live = Total(m) /\ Ev.bad = 0

TInit == l = 1 /\ q = [o \in {0, 1} |-> <<>>]

TReset  == IsEvent("reset")  /\ q' = [o \in {0, 1} |-> <<>>] /\ Observed(q')
TGone   == IsEvent("gone")   /\ Ev.live = 0 /\ Ev.bad = 0 /\ UNCHANGED q
TAssign == IsEvent("assign") /\ S!Assign(Ev.o, Ev.vals) /\ Observed(q')
TInsert == IsEvent("insert") /\ S!Insert(Ev.o, Ev.p, Ev.vals) /\ Ev.res = Ev.p /\ Observed(q')
TErase  == IsEvent("erase")  /\ S!Erase(Ev.o, Ev.p, Ev.n) /\ Ev.res = Ev.p /\ Observed(q')
TResize == IsEvent("resize") /\ S!Resize(Ev.o, Ev.n, Ev.v) /\ Observed(q')
TSet    == IsEvent("set")    /\ S!Set(Ev.o, Ev.p, Ev.v) /\ Observed(q')
TCopy   == IsEvent("copy")   /\ S!Copy(Ev.o, Ev.from) /\ Observed(q')
TMove   == IsEvent("move")   /\ S!Move(Ev.o, Ev.from, Ev.obs[Ev.from + 1]) /\ Observed(q')
TSwap   == IsEvent("swap")   /\ S!Swap(0, 1) /\ Observed(q')
TNop    == IsEvent("nop")    /\ S!Observe /\ Observed(q') /\ (Has("cap") => Ev.cap >= Ev.n)
TRead   == IsEvent("read")   /\ S!Observe /\ Ev.res = q[Ev.o] /\ Observed(q')
TRRead  == IsEvent("rread")  /\ S!Observe /\ Ev.res = S!Reversed(q[Ev.o]) /\ Observed(q')
TAt     == IsEvent("at")     /\ S!Observe /\ Observed(q')
                             /\ Ev.threw = (Ev.p >= Len(q[Ev.o]))
                             /\ (~Ev.threw => Ev.res = q[Ev.o][Ev.p + 1])
TEnds   == IsEvent("ends")   /\ S!Observe /\ Observed(q')
                             /\ LET s == q[Ev.o] IN
                                  Ev.front = s[1] /\ Ev.cfront = s[1] /\ Ev.back = s[Len(s)] /\ Ev.cback = s[Len(s)]
TIter   == IsEvent("iter")   /\ S!Observe /\ Observed(q')
                             /\ Ev.diff = Ev.j - Ev.i /\ Ev.vi = q[Ev.o][Ev.i + 1] /\ Ev.lt = (Ev.i < Ev.j)
                             /\ Ev.eq = (Ev.i = Ev.j) /\ Ev.eqz /\ Ev.eqw /\ Ev.vw = q[Ev.o][Ev.i + 1] /\ Ev.sub = q[Ev.o][Ev.i + 1]
TPos    == IsEvent("pos")    /\ S!Observe /\ Observed(q') /\ Ev.res = Ev.p /\ Ev.cres = Ev.p
TWalk   == IsEvent("walk")   /\ S!Observe /\ Observed(q')
                             /\ \A i \in 1..Len(Ev.at) : Ev.res[i] = q[Ev.o][Ev.at[i] + 1]
TCaps   == IsEvent("caps")   /\ S!Observe /\ Observed(q') /\ Ev.max = Ev.wantmax
                             /\ \A k \in {1, 2} : Ev.caps[k] >= Len(q[k - 1])
TStore  == IsEvent("storage") /\ S!Observe /\ Observed(q') /\ Ev.disjoint
TAvail  == IsEvent("avail")  /\ S!Observe /\ Observed(q') /\ Ev.res = Ev.max - Len(q[Ev.o])
\* growth beyond the maximum is refused and changes nothing
TRefuse == IsEvent("refuse") /\ S!Observe /\ Observed(q') /\ Ev.threw
TItCopy == IsEvent("itcopy") /\ S!Observe /\ Observed(q')
                             /\ LET s == q[Ev.o] IN
                                  /\ Ev.vx = s[Ev.i + 1] /\ Ev.vz = s[Ev.i + 1] /\ Ev.cv = s[Ev.i + 1] /\ Ev.eqz /\ Ev.ney
                                  /\ Ev.yend = (Ev.i + 1 = Len(s)) /\ Ev.cend = (Ev.i + 1 = Len(s))
TCmp    == IsEvent("cmp")    /\ S!Observe /\ Observed(q') /\ Ev.eq = (q[0] = q[1]) /\ Ev.selfeq
TLess   == IsEvent("less")   /\ S!Observe /\ Observed(q') /\ Ev.lt = S!LexLess(q[0], q[1]) /\ Ev.gt = S!LexLess(q[1], q[0])

TNext == TReset \/ TGone \/ TAssign \/ TInsert \/ TErase \/ TResize \/ TSet \/ TCopy \/ TMove \/ TSwap \/ TNop \/ TRead
         \/ TRRead \/ TAt \/ TEnds \/ TIter \/ TPos \/ TWalk \/ TCaps \/ TStore \/ TAvail \/ TRefuse \/ TItCopy \/ TCmp \/ TLess
TSpec == TInit /\ [][TNext]_vars
=============================================================================
