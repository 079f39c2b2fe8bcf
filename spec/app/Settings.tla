-------------------------------- MODULE Settings --------------------------------
(* neolib::settings and its setting<T>s. A setting has a default, an applied value (0: none, the default shows) and perhaps a
   pending one (-1: no change pending, 0: pending return to the default). Keys and values are numbers in the order of their
   text. The state s: reg (keys in order of registration), st (per key), dirty, filed (has a file), store (the file's values,
   sure unless their setting was not registered when the file was last written), fr (friendly texts), cats/grps (titles).
   Every operation yields the new state and its announcements <<kind, key, value shown, new value shown>> in order of kind and
   key: 1 changing and 2 changed by the setting, 3 changing, 4 changed and 5 deleted by the manager, 6 a category's settings
   changed by the manager. *)
EXTENDS Integers, Sequences, FiniteSets
NoSetting == [def |-> 0, val |-> 0, new |-> -1, en |-> FALSE, opt |-> FALSE]
NoStored == [v |-> 0, sure |-> TRUE]
Fresh(keys, filed) == [reg |-> <<>>, st |-> [k \in keys |-> NoSetting], dirty |-> FALSE, filed |-> filed, store |-> [k \in keys |-> NoStored],
                       fr |-> [k \in keys |-> <<>>], cats |-> <<>>, grps |-> <<>>]
Registered(s) == {s.reg[i] : i \in DOMAIN s.reg}
Shown(x) == IF x.val = 0 THEN x.def ELSE x.val
ShownNew(x) == IF x.new = -1 THEN Shown(x) ELSE IF x.new = 0 THEN x.def ELSE x.new
Modified(x) == x.new # -1
IsDefault(x) == x.val = 0
IsDefaultNew(x) == IF Modified(x) THEN x.new = 0 ELSE x.val = 0
Dirty(s) == s.dirty \/ \E k \in Registered(s) : Modified(s.st[k])
Ann(kind, k, x) == <<kind, k, Shown(x), ShownNew(x)>>
Changing(k, x) == <<Ann(1, k, x), Ann(3, k, x)>>
Changed(k, x) == <<Ann(2, k, x), Ann(4, k, x)>>
Put(s, k, x) == [s EXCEPT !.st[k] = x]
Applied(x) == [x EXCEPT !.val = x.new, !.new = -1]
Same(s) == [s |-> s, ann |-> <<>>]
Save(s) == [s EXCEPT !.dirty = FALSE,
                     !.store = IF ~s.filed THEN s.store ELSE [k \in DOMAIN s.st |->
                        IF k \in Registered(s) THEN [v |-> s.st[k].val, sure |-> TRUE]
                        ELSE IF s.store[k].v = 0 THEN NoStored ELSE [s.store[k] EXCEPT !.sure = FALSE]]]
\* the values a setting may be given by the file when it is registered
Loads(s, k) == LET f == s.store[k] IN IF f.v = 0 THEN {0} ELSE IF f.sure THEN {f.v} ELSE {0, f.v}
Register(s, k, d, opt, dis, f) ==
    Same([Put(s, k, [def |-> d, val |-> IF f = d THEN 0 ELSE f, new |-> -1, en |-> ~dis, opt |-> opt]) EXCEPT !.reg = Append(@, k), !.fr[k] = <<>>])
\* the setting given a value, and what that announces
SetTo(x, v) == IF Shown(x) # v THEN [x EXCEPT !.new = v] ELSE [x EXCEPT !.new = -1]
Set(s, k, v) == LET x == s.st[k] y == SetTo(x, v) IN [s |-> Put(s, k, y), ann |-> IF x.new = y.new THEN <<>> ELSE Changing(k, y)]
Apply(s, k) == LET x == s.st[k] y == Applied(x) IN IF ~Modified(x) THEN Same(s) ELSE [s |-> [Put(s, k, y) EXCEPT !.dirty = TRUE], ann |-> Changed(k, y)]
SetNow(s, k, v) ==
    LET a == Set(s, k, v) b == Apply(a.s, k) IN
    [s |-> b.s, ann |-> IF a.ann = <<>> THEN b.ann ELSE IF b.ann = <<>> THEN a.ann ELSE <<a.ann[1], b.ann[1], a.ann[2], b.ann[2]>>]
Change(s, k, v, now) == IF now THEN LET a == SetNow(s, k, v) IN [a EXCEPT !.s = Save(@)] ELSE Set(s, k, v)
Clear(s, k) ==
    LET x == s.st[k] y == [x EXCEPT !.new = IF IsDefault(x) THEN -1 ELSE 0] IN
    [s |-> Put(s, k, y), ann |-> IF x.new = y.new THEN <<>> ELSE Changing(k, y)]
SetDefault(s, k, d) ==
    LET x == s.st[k] y == [x EXCEPT !.def = d] IN
    IF x.def = d THEN Same(s) ELSE IF ~IsDefault(x) THEN Same(Put(s, k, y)) ELSE [s |-> [Put(s, k, y) EXCEPT !.dirty = TRUE], ann |-> Changed(k, y)]
Enable(s, k, on) ==
    LET x == s.st[k] y == [x EXCEPT !.en = on] IN IF x.en = on THEN Same(s) ELSE [s |-> [Put(s, k, y) EXCEPT !.dirty = TRUE], ann |-> Changed(k, y)]
SortedSeq(S) == LET RECURSIVE f(_)
                    f(T) == IF T = {} THEN <<>> ELSE LET m == CHOOSE m \in T : \A o \in T : m <= o IN <<m>> \o f(T \ {m})
                IN f(S)
Each(kind, s, S) == LET q == SortedSeq(S) IN [i \in DOMAIN q |-> Ann(kind, q[i], s.st[q[i]])]
Pending(s) == {k \in Registered(s) : Modified(s.st[k])}
ApplyAll(s, cat) ==
    LET P == Pending(s)
        t == [s EXCEPT !.st = [k \in DOMAIN s.st |-> IF k \in P THEN Applied(s.st[k]) ELSE s.st[k]]]
        C == SortedSeq({cat[k] : k \in P}) IN
    IF ~Dirty(s) THEN Same(s)
    ELSE [s |-> Save(t), ann |-> Each(2, t, P) \o Each(4, t, P) \o [i \in DOMAIN C |-> <<6, C[i], 0, 0>>]]
DiscardAll(s) ==
    LET P == Pending(s) t == [s EXCEPT !.st = [k \in DOMAIN s.st |-> IF k \in P THEN [s.st[k] EXCEPT !.new = -1] ELSE s.st[k]]] IN
    [s |-> t, ann |-> Each(1, t, P) \o Each(3, t, P)]
Without(q, k) == SelectSeq(q, LAMBDA z : z # k)
Delete(s, k) ==
    [s |-> Save([s EXCEPT !.reg = Without(@, k), !.st[k] = NoSetting, !.store[k] = NoStored, !.fr[k] = <<>>]), ann |-> <<Ann(5, k, s.st[k])>>]
Reopen(s) == Same([Fresh(DOMAIN s.st, s.filed) EXCEPT !.store = s.store])
\* texts: a function given as a sequence of pairs
Lookup(f, t, none) == LET H == {i \in DOMAIN f : f[i][1] = t} IN IF H = {} THEN none ELSE f[CHOOSE i \in H : TRUE][2]
Store(f, t, v) == SelectSeq(f, LAMBDA p : p[1] # t) \o <<<<t, v>>>>
===============================================================================
