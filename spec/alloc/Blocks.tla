------------------------------- MODULE Blocks -------------------------------
(* Memory handed out by an allocator: the blocks in use, as a function from their names to
   [start, stop, pat]: the addresses <<high, low>> of the first byte and past the last one, and the byte the user filled it with. *)
EXTENDS Integers, FiniteSets, TLC
Page == 16777216
Before(a, b) == a[1] < b[1] \/ (a[1] = b[1] /\ a[2] < b[2])
After(a, n) == <<a[1] + ((a[2] + n) \div Page), (a[2] + n) % Page>>
Overlap(x, y) == Before(x.start, y.stop) /\ Before(y.start, x.stop)
Block(a, n, p) == [start |-> a, stop |-> After(a, n), pat |-> p]
\* a new block of n bytes must be aligned and clear of every block in use
Sound(blocks, a, n, align) == a[2] % align = 0 /\ \A b \in DOMAIN blocks : ~Overlap(blocks[b], Block(a, n, 0))
Put(blocks, id, a, n, p) == [b \in DOMAIN blocks \union {id} |-> IF b = id THEN Block(a, n, p) ELSE blocks[b]]
Drop(blocks, id) == [b \in DOMAIN blocks \ {id} |-> blocks[b]]
Nothing == [b \in {} |-> 0]
=============================================================================
