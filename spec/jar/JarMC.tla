------------------------------- MODULE JarMC -------------------------------
(* The jar and its counted cookies, exhaustively: cookies 1..Cap, two holders. *)
EXTENDS Jar, TLC
CONSTANTS Cap, Holders
VARIABLES j, h, issued
Perms(s, p) == {t \in {SubSeq(s, 1, p) \o u : u \in {f \in [1..(Len(s) - p - 1) -> Range(s)] : TRUE}} : Removed(s, p, t)}
Init == j = Empty /\ h = [x \in Holders |-> None] /\ issued = [c \in 1..Cap |-> 0]
Drop(h2) == LET g == Gone(h, h2) IN
    IF g = {} THEN UNCHANGED j ELSE \E c \in g : \E t \in Perms(j.items, Where(j.items, c)) : j' = [j EXCEPT !.items = t]
Insert == \E c \in 1..Cap : Free(j, c, Cap) /\ j' = Put(j, c, issued[c]) /\ issued' = [issued EXCEPT ![c] = IF @ = 1 THEN 0 ELSE 1] /\ UNCHANGED h
Next ==
    \/ Insert
    \/ \E c \in 1..Cap : Free(j, c, Cap) /\ j' = Reserve(j, c) /\ UNCHANGED <<h, issued>>
    \/ \E c \in j.reserved : j' = Put(j, c, 0) /\ UNCHANGED <<h, issued>>
    \/ \E c \in j.reserved : j' = Return(j, c) /\ UNCHANGED <<h, issued>>
    \/ \E c \in Live(j) : Count(h, c) = 0 /\ (\E t \in Perms(j.items, Where(j.items, c)) : j' = [j EXCEPT !.items = t]) /\ UNCHANGED <<h, issued>>
    \/ \E x \in Holders, c \in Live(j) \cup {None} : h' = [h EXCEPT ![x] = c] /\ Drop(h') /\ UNCHANGED issued
Spec == Init /\ [][Next]_<<j, h, issued>>
Distinct == \A a, b \in 1..Len(j.items) : a # b => j.items[a][1] # j.items[b][1]
Disjoint == Live(j) \cap j.reserved = {} /\ None \notin Used(j)
HeldStay == \A x \in Holders : h[x] # None => h[x] \in Live(j)
\* an item keeps its cookie and value until it is removed
Stable == [][\A c \in Live(j) : c \in Live(j') => Value(j'.items, c) = Value(j.items, c)]_<<j, h, issued>>
=============================================================================
