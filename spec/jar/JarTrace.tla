------------------------------ MODULE JarTrace ------------------------------
EXTENDS TraceBase, FiniteSets
VARIABLES q, h, cap
X == INSTANCE Jar
vars == <<q, h, cap, l>>
Counts(g) == {<<c, X!Count(g, c)>> : c \in {g[x] : x \in DOMAIN g} \ {0}}
ToSet(s) == {s[i] : i \in 1..Len(s)}
Observed(m, g) ==
    /\ Ev.vals = <<m[1].items, m[2].items>>
    /\ Ev.sizes = <<Len(m[1].items), Len(m[2].items)>>
    /\ Ev.empty = [o \in 1..2 |-> IF m[o].items = <<>> THEN 1 ELSE 0]
    /\ Ev.refs = g
    /\ ToSet(Ev.cnt) = Counts(g) /\ Ev.kbad = 0
    /\ "live" \in DOMAIN Ev => Ev.live = Len(m[1].items) + Len(m[2].items) /\ Ev.bad = 0
TInit == l = 1 /\ q = <<X!Empty, X!Empty>> /\ h = <<0, 0, 0, 0>> /\ cap = 0
J == q[Ev.o]
Step(m, g) == q' = m /\ h' = g /\ UNCHANGED cap /\ Observed(m, g)
Jar(o, v, g) == Step([q EXCEPT ![o] = v], g)
\* the recorded contents of jar o, if they are what removing cookie c may leave
Minus(o, c) == [q[o] EXCEPT !.items = Ev.vals[o]]
CanRemove(o, c) == c \in X!Live(q[o]) /\ X!Removed(q[o].items, X!Where(q[o].items, c), Ev.vals[o])
Hold(g) == LET gone == X!Gone(h, g) IN
    IF gone = {} THEN Step(q, g) ELSE \E c \in gone : gone = {c} /\ CanRemove(1, c) /\ Jar(1, Minus(1, c), g)
Next ==
    \/ IsEvent("reset") /\ q' = <<X!Empty, X!Empty>> /\ h' = <<0, 0, 0, 0>> /\ cap' = Ev.cap /\ Observed(q', h')
    \/ IsEvent("gone") /\ UNCHANGED <<q, h, cap>> /\ Ev.live = 0 /\ Ev.bad = 0
    \/ IsEvent("insert") /\ X!Free(J, Ev.c, cap) /\
          IF "s" \notin DOMAIN Ev THEN Jar(Ev.o, X!Put(J, Ev.c, Ev.v), h)
          ELSE LET g == [h EXCEPT ![Ev.s] = Ev.c] gone == X!Gone(h, g) IN
               IF gone = {} THEN Jar(1, X!Put(J, Ev.c, Ev.v), g)
               ELSE \E c \in gone : LET s == X!Put(J, Ev.c, Ev.v).items IN
                    X!Removed(s, X!Where(s, c), Ev.vals[1]) /\ Jar(1, [J EXCEPT !.items = Ev.vals[1]], g)
    \/ IsEvent("full") /\ X!Exhausted(J, cap) /\ Step(q, h)
    \/ IsEvent("next") /\ X!Free(J, Ev.c, cap) /\ Jar(Ev.o, X!Reserve(J, Ev.c), h)
    \/ IsEvent("unnext") /\ Jar(Ev.o, X!Return(J, Ev.c), h)
    \/ IsEvent("add") /\ Ev.c \in J.reserved /\ Jar(Ev.o, X!Put(J, Ev.c, Ev.v), h) /\ Ev.res = Len(J.items)
    \/ IsEvent("addbad") /\ Ev.threw /\ Step(q, h)
    \/ IsEvent("remove") /\ CanRemove(Ev.o, Ev.c) /\ X!Where(J.items, Ev.c) = Ev.p /\ Ev.res = Ev.p /\ Jar(Ev.o, Minus(Ev.o, Ev.c), h)
    \/ IsEvent("refuse") /\ Ev.got = 0 /\ Step(q, h)
    \/ IsEvent("query") /\ Step(q, h) /\ \A i \in 1..Len(Ev.res) : LET c == Ev.res[i][1] IN
          Ev.res[i] = <<c, IF c \in X!Live(J) THEN 1 ELSE 0, X!Where(J.items, c), X!Value(J.items, c)>>
    \/ IsEvent("set") /\ Ev.c \in X!Live(J) /\ Jar(Ev.o, X!Change(J, Ev.c, Ev.v), h)
    \/ IsEvent("clear") /\ Jar(Ev.o, X!Empty, h)
    \/ IsEvent("copy") /\ Jar(Ev.o, q[Ev.f], h)
    \/ IsEvent("move") /\ Step([[q EXCEPT ![Ev.o] = q[Ev.f]] EXCEPT ![Ev.f] = X!Empty], h)
    \/ IsEvent("hold") /\ Hold([h EXCEPT ![Ev.s] = Ev.c])
    \/ IsEvent("rcopy") /\ Ev.eq /\ Hold([h EXCEPT ![Ev.s] = h[Ev.t]])
    \/ IsEvent("rmove") /\ Hold([[h EXCEPT ![Ev.s] = h[Ev.t]] EXCEPT ![Ev.t] = 0])
    \/ IsEvent("rswap") /\ Hold([[h EXCEPT ![Ev.s] = h[Ev.t]] EXCEPT ![Ev.t] = h[Ev.s]])
    \/ IsEvent("drop") /\ Hold([h EXCEPT ![Ev.s] = 0])
    \/ IsEvent("rcmp") /\ Step(q, h) /\ (h[Ev.s] # 0 /\ h[Ev.t] # 0 => (Ev.eq <=> h[Ev.s] = h[Ev.t])) /\ (Ev.valid <=> h[Ev.s] # 0) /\ (Ev.expired <=> h[Ev.s] = 0)
          /\ (h[Ev.s] # 0 => Ev.uses = X!Count(h, h[Ev.s]))
Spec == TInit /\ [][Next]_vars
=============================================================================
