----------------------------- MODULE RefCount -----------------------------
(* Intrusive reference counting: strong slots (variables, and one "next" slot inside every object), raw references
   (counts handed out without a slot), pins and weak slots.  An object dies exactly when its last reference is
   released while it is not pinned; its own slot is then emptied, which may kill further objects. *)
EXTENDS Integers, FiniteSets
CONSTANTS Slots, Weaks, MaxObj
Objs == 1..MaxObj
NextOf(o) == 100 + o
AllSlots == Slots \cup {NextOf(o) : o \in Objs}
Empty == [p |-> 0, m |-> 0, c |-> FALSE]
To(o) == [p |-> o, m |-> o, c |-> TRUE]

Start == [alive |-> {}, dead |-> {}, sl |-> [s \in AllSlots |-> Empty], raw |-> [o \in Objs |-> 0],
          pin |-> {}, wk |-> [w \in Weaks |-> 0]]

Uses(st, o) == Cardinality({s \in AllSlots : st.sl[s].m = o /\ st.sl[s].c}) + st.raw[o]

RECURSIVE Collect(_, _)
Collect(st, o) ==
    IF o \in st.alive /\ Uses(st, o) = 0 /\ o \notin st.pin
    THEN LET n == st.sl[NextOf(o)]
             d == [st EXCEPT !.alive = @ \ {o}, !.dead = @ \cup {o}, !.sl[NextOf(o)] = Empty]
         IN IF n.c THEN Collect(d, n.m) ELSE d
    ELSE st
Put(st, s, v) ==
    LET old == st.sl[s] t == [st EXCEPT !.sl[s] = v]
    IN IF old.c THEN Collect(t, old.m) ELSE t
MovedFrom(st, s) == [st EXCEPT !.sl[s] = Empty]
\* a slot of an object exists only while the object does
Usable(st, s) == s \in Slots \/ (s - 100) \in st.alive

Create(st, o) == [st EXCEPT !.alive = @ \cup {o}]
New(st, s, o) == Put(Create(st, o), s, To(o))
Bare(st, o) == [Create(st, o) EXCEPT !.pin = @ \cup {o}]
Copy(st, s, f) == Put(st, s, st.sl[f])
Move(st, s, f) == IF s = f THEN st ELSE Put(MovedFrom(st, f), s, st.sl[f])
Alias(st, s, f, p, moving) ==
    LET v == [st.sl[f] EXCEPT !.p = p] IN Put(IF moving THEN MovedFrom(st, f) ELSE st, s, v)
Swap(st, s, t) == [st EXCEPT !.sl[s] = st.sl[t], !.sl[t] = st.sl[s]]
Reset(st, s) == Put(st, s, Empty)
ResetTo(st, s, p, m) == Put(st, s, [p |-> p, m |-> m, c |-> m # 0])
Refer(st, s, o) == Put(st, s, [p |-> o, m |-> o, c |-> Uses(st, o) > 0])
Detach(st, s) == [MovedFrom(st, s) EXCEPT !.raw = IF st.sl[s].c THEN [@ EXCEPT ![st.sl[s].m] = @ + 1] ELSE @]
MayRelease(st, s) == st.sl[s].m # 0 /\ Uses(st, st.sl[s].m) = 1
Release(st, s) == MovedFrom(st, s)      \* the caller owns the object, which stays alive without references
AddRef(st, o) == [st EXCEPT !.raw[o] = @ + 1]
DropRef(st, o) == Collect([st EXCEPT !.raw[o] = @ - 1], o)
Adopt(st, s, o) ==                      \* a raw reference becomes the slot's
    LET old == st.sl[s] t == [st EXCEPT !.raw[o] = @ - 1, !.sl[s] = To(o)]
    IN IF old.c THEN Collect(t, old.m) ELSE t
Pin(st, o) == [st EXCEPT !.pin = @ \cup {o}]
Unpin(st, o) == Collect([st EXCEPT !.pin = @ \ {o}], o)
Observe(st, w, o) == [st EXCEPT !.wk[w] = IF o \in st.alive THEN o ELSE 0]
Expired(st, w) == st.wk[w] = 0 \/ st.wk[w] \notin st.alive
Upgrade(st, s, w) == Put(st, s, IF Expired(st, w) THEN Empty ELSE To(st.wk[w]))
=============================================================================
