---------------------------- MODULE BlocksTrace ----------------------------
(* Histories of one allocator. state: its kind; blocks in use; free: elements known to be available without growing;
   taken: elements in use taken from the allocator's own store; buffer: the block occupying the small buffer (0 none). *)
EXTENDS TraceBase
VARIABLE st
X == INSTANCE Blocks
vars == <<st, l>>
\* what the users find in their blocks: the byte each is filled with, or -1 if that has changed
Contents(s) == LET D == DOMAIN s.blocks IN Ev.found = [b \in 1..Ev.top |-> IF b \in D THEN s.blocks[b].pat ELSE 0]
Become(s) == st' = s /\ Contents(s)
\* news, dels: calls of operator new and delete made by the operation
Own(n) == (st.kind \in {"pool", "omega", "reserve"} /\ n = 1) \/ (st.kind = "small" /\ n <= st.cap /\ st.buffer = 0 /\ Ev.own)
Added == X!Put(st.blocks, Ev.id, Ev.at, Ev.size, Ev.pat)
Fine == X!Sound(st.blocks, Ev.at, Ev.size, Ev.align)
TInit == l = 1 /\ st = [kind |-> "none", blocks |-> X!Nothing, free |-> 0, taken |-> 0, cap |-> 0, buffer |-> 0]
Next ==
    \* a new allocator: a reserve of cap elements, a small buffer of cap elements
    \/ IsEvent("reset") /\ Become([kind |-> Ev.kind, blocks |-> X!Nothing, free |-> Ev.free, taken |-> 0, cap |-> Ev.cap, buffer |-> 0])
    \/ IsEvent("take") /\ Fine /\
       CASE st.kind \in {"pool", "omega"} /\ Ev.n = 1 ->
              /\ Ev.news = (IF st.free > 0 THEN 0 ELSE Ev.news) /\ Ev.news <= 1 /\ Ev.dels = 0
              /\ Become([st EXCEPT !.blocks = Added, !.free = IF @ > 0 THEN @ - 1 ELSE 0, !.taken = @ + 1])
         [] st.kind \in {"pool", "omega"} /\ Ev.n # 1 -> Ev.news = 1 /\ Become([st EXCEPT !.blocks = Added])
         [] st.kind = "reserve" -> Ev.n = 1 /\ st.taken < st.cap /\ Ev.news = 0 /\ Become([st EXCEPT !.blocks = Added, !.taken = @ + 1])
         [] st.kind = "small" ->
              IF Ev.n <= st.cap /\ st.buffer = 0 THEN Ev.own /\ Ev.news = 0 /\ Become([st EXCEPT !.blocks = Added, !.buffer = Ev.id])
              ELSE ~Ev.own /\ Ev.news = 1 /\ Become([st EXCEPT !.blocks = Added])
    \* a fixed reserve refuses what is beyond its capacity, and anything but single elements
    \/ IsEvent("refused") /\ st.kind = "reserve" /\ (Ev.n # 1 \/ st.taken = st.cap) /\ Become(st)
    \* found: what the block held when it was given back
    \/ IsEvent("give") /\ Ev.had = st.blocks[Ev.id].pat /\
       CASE st.kind = "pool" /\ Ev.n = 1 -> Ev.dels = 0 /\ Become([st EXCEPT !.blocks = X!Drop(@, Ev.id), !.free = @ + 1, !.taken = @ - 1])
         [] st.kind = "pool" /\ Ev.n # 1 -> Ev.dels = 1 /\ Become([st EXCEPT !.blocks = X!Drop(@, Ev.id)])
         [] st.kind = "omega" -> Ev.dels = 0 /\ Become([st EXCEPT !.blocks = X!Drop(@, Ev.id)])
         [] st.kind = "reserve" -> Ev.dels = 0 /\ Become([st EXCEPT !.blocks = X!Drop(@, Ev.id), !.taken = @ - 1])
         [] st.kind = "small" -> Ev.dels = (IF st.buffer = Ev.id THEN 0 ELSE 1) /\
                                 Become([st EXCEPT !.blocks = X!Drop(@, Ev.id), !.buffer = IF @ = Ev.id THEN 0 ELSE @])
    \* everything an omega pool has handed out becomes available at once
    \/ IsEvent("recycle") /\ st.kind = "omega" /\ Become([st EXCEPT !.blocks = X!Nothing, !.free = @ + st.taken, !.taken = 0])
    \* a fixed reserve takes back single elements only
    \/ IsEvent("badgive") /\ st.kind = "reserve" /\ Become(st)
    \/ IsEvent("buffer") /\ st.kind = "small" /\ Ev.used = (st.buffer # 0) /\ Ev.available = (st.buffer = 0) /\ Become(st)
Spec == TInit /\ [][Next]_vars
=============================================================================
