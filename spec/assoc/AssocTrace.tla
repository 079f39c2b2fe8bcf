----------------------------- MODULE AssocTrace -----------------------------
(* Validates recorded histories of an associative container against Assoc. *)
EXTENDS TraceBase, Assoc

VARIABLES m, ord, mul
vars == <<m, ord, mul, l>>
Has(f) == f \in DOMAIN Ev
s == m[Ev.o]

\* the contents shown: exactly the model's for an ordered container; up to permutation otherwise
Shows(t, obs) == IF ord THEN obs = t ELSE SameBag(obs, t) /\ Grouped(obs)
\* the model takes over the iteration order of an unordered container, so that positions can be compared afterwards
Take(n) ==
    /\ \A k \in {0, 1} : /\ Shows(n[k], Ev.obs[k + 1])
                         /\ Ev.sizes[k + 1] = Len(n[k]) /\ (Ev.emp[k + 1] = 1) = (Len(n[k]) = 0)
    /\ Has("live") => Ev.live = Len(n[0]) + Len(n[1]) /\ Ev.bad = 0
    /\ m' = [k \in {0, 1} |-> Ev.obs[k + 1]]
    /\ UNCHANGED <<ord, mul>>
Keep == Take(m)
Upd(t) == Take([m EXCEPT ![Ev.o] = t])
\* the iterator returned designates an entry <<k, v>> of the new contents, at its position there
Points(t, k, v) == ~Ev.end /\ Ev.rk = k /\ Ev.rv = v /\ Ev.res < Len(t) /\ t[Ev.res + 1] = <<k, v>>

TInit == l = 1 /\ m = [k \in {0, 1} |-> <<>>] /\ ord = TRUE /\ mul = FALSE
TReset == /\ IsEvent("reset") /\ ord' = Ev.ordered /\ mul' = Ev.multi /\ m' = [k \in {0, 1} |-> <<>>]
          /\ Ev.obs = <<<<>>, <<>>>> /\ Ev.sizes = <<0, 0>>
TGone == IsEvent("gone") /\ Ev.live = 0 /\ Ev.bad = 0 /\ UNCHANGED <<m, ord, mul>>
TInsert == /\ IsEvent("insert")
           /\ LET t == Inserted(s, Ev.k, Ev.v, ord, mul) IN
                /\ Upd(t)
                /\ Points(Ev.obs[Ev.o + 1], Ev.k, IF ~mul /\ Ev.k \in Keys(s) THEN ValueFor(s, Ev.k) ELSE Ev.v)
TEmplace == /\ IsEvent("emplace")
            /\ Upd(Inserted(s, Ev.k, Ev.v, ord, mul)) /\ Ev.rk = Ev.k
            /\ Ev.rv = IF ~mul /\ Ev.k \in Keys(s) THEN ValueFor(s, Ev.k) ELSE Ev.v
TIndex == /\ IsEvent("index")
          /\ Ev.before = (IF Ev.k \in Keys(s) THEN ValueFor(s, Ev.k) ELSE 0)
          /\ Upd(WithValue(Inserted(s, Ev.k, 0, ord, mul), Ev.k, Ev.v))
TAt == /\ IsEvent("at") /\ Ev.threw = (Ev.k \notin Keys(s))
       /\ ~Ev.threw => Ev.rv = ValueFor(s, Ev.k)
       /\ Upd(IF Ev.threw \/ Ev.const THEN s ELSE WithValue(s, Ev.k, Ev.v))
TFind == /\ IsEvent("find") /\ Ev.end = (Ev.k \notin Keys(s))
         /\ ~Ev.end => Ev.rk = Ev.k /\ Ev.res < Len(s) /\ s[Ev.res + 1] = <<Ev.k, Ev.rv>>
         /\ Ev.end => Ev.res = Len(s)
         /\ Keep
TBound == IsEvent("bound") /\ Ev.res = (IF Ev.upper THEN Upper(s, Ev.k) ELSE Lower(s, Ev.k)) /\ Keep
TErase == /\ IsEvent("erase") /\ s[Ev.p + 1] = <<Ev.rk, Ev.rv>>
          /\ Upd(CutAt(s, Ev.p, 1)) /\ (ord => Ev.res = Ev.p)
TEraseRange == /\ IsEvent("erase_range") /\ Ev.gone = SubSeq(s, Ev.p + 1, Ev.p + Ev.n)
               /\ Upd(CutAt(s, Ev.p, Ev.n)) /\ (ord => Ev.res = Ev.p)
TEraseKey == /\ IsEvent("erase_key") /\ Ev.res = Len(s) - Len(WithoutKey(s, Ev.k)) /\ Upd(WithoutKey(s, Ev.k))
TSet == IsEvent("set") /\ s[Ev.p + 1] = <<Ev.rk, Ev.rv>> /\ Upd([s EXCEPT ![Ev.p + 1] = <<Ev.rk, Ev.v>>])
TClear == IsEvent("clear") /\ Upd(<<>>)
TCopy == IsEvent("copy") /\ Upd(m[Ev.from])
TMove == IsEvent("move") /\ Take([k \in {0, 1} |-> IF k = Ev.o THEN m[Ev.from] ELSE Ev.obs[k + 1]])
TBuild == IsEvent("build") /\ Upd(Built(<<>>, Ev.items, ord, mul))
TNop == IsEvent("nop") /\ Keep
TRRead == IsEvent("rread") /\ Ev.res = [i \in 1..Len(s) |-> s[Len(s) + 1 - i]] /\ Keep
TCmp == IsEvent("cmp") /\ Ev.eq = (IF ord THEN m[0] = m[1] ELSE SameBag(m[0], m[1])) /\ Ev.selfeq /\ Keep
TLess == IsEvent("less") /\ Ev.lt = LexLess(m[0], m[1]) /\ Ev.gt = LexLess(m[1], m[0]) /\ Keep
TNext == TReset \/ TGone \/ TInsert \/ TEmplace \/ TIndex \/ TAt \/ TFind \/ TBound \/ TErase \/ TEraseRange \/ TEraseKey
         \/ TSet \/ TClear \/ TCopy \/ TMove \/ TBuild \/ TNop \/ TRRead \/ TCmp \/ TLess
TSpec == TInit /\ [][TNext]_vars
=============================================================================
