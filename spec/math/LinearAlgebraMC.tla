--------------------------- MODULE LinearAlgebraMC ---------------------------
(* The laws LinearAlgebra is relied on for, over all small vectors and boxes, and the frame property of registers
   changed in place. *)
EXTENDS LinearAlgebra, TLC
CONSTANTS Bound, Quarters
Numbers == (-Bound)..Bound
VARIABLES regs, box, turn
vars == <<regs, box, turn>>

V2 == {<<x, y>> : x \in Numbers, y \in Numbers}
Turns == {Turn(u, q) : u \in {<<1, 0, 0>>, <<0, 1, 0>>, <<0, 0, 1>>}, q \in 0..Quarters}
BoxesOf(S) == {b \in S \X S : \A i \in 1..2 : b[1][i] <= b[2][i]}
Boxes == BoxesOf(V2)
Init == regs \in [1..2 -> V2] /\ box \in Boxes /\ turn = Unit(3)
\* changes in place
Store(a, v) == v \in V2 /\ regs' = [regs EXCEPT ![a] = v] /\ UNCHANGED <<box, turn>>
AddTo(a, b) == Store(a, Add(regs[a], regs[b]))
TakeFrom(a, b) == Store(a, Sub(regs[a], regs[b]))
Assign(a, b, ix, iy) == Store(a, Swizzle(regs[a], ix, Pick(regs[b], iy)))
Exchange == regs' = <<regs[2], regs[1]>> /\ UNCHANGED <<box, turn>>
Include(p) == box' = Union(box, <<p, p>>) /\ UNCHANGED <<regs, turn>>
Rotate(t) == turn' = Mul(t, turn) /\ UNCHANGED <<regs, box>>
Next ==
    \/ turn = Unit(3) /\ \E a, b \in 1..2 : AddTo(a, b) \/ TakeFrom(a, b)
    \/ turn = Unit(3) /\ \E a, b \in 1..2, ix, iy \in {<<1>>, <<2>>, <<1, 2>>, <<2, 1>>} : Len(ix) = Len(iy) /\ Assign(a, b, ix, iy)
    \/ turn = Unit(3) /\ Exchange
    \/ turn = Unit(3) /\ \E p \in V2 : Include(p)
    \/ regs[1] = regs[2] /\ box[1] = box[2] /\ \E t \in Turns : Rotate(t) \* turning has nothing to do with the rest
Spec == Init /\ [][Next]_vars

A == regs[1]
B == regs[2]
M == <<A, B>>              \* two vectors are a matrix
Lift(v) == <<v[1], v[2], v[1] + v[2]>>
Algebra ==
    /\ Add(A, B) = Add(B, A) /\ Sub(Add(A, B), B) = A /\ Dot(A, B) = Dot(B, A)
    /\ Transposed(Transposed(M)) = M /\ Mul(M, Unit(2)) = M /\ Mul(Unit(2), M) = M
    /\ Transposed(Mul(M, Outer(A, B))) = Mul(Transposed(Outer(A, B)), Transposed(M))
    /\ Apply(Mul(M, M), A) = Apply(M, Apply(M, A)) /\ RowApply(A, M) = Apply(Transposed(M), A)
    /\ Dot(Cross(Lift(A), Lift(B)), Lift(A)) = 0 /\ Dot(Cross(Lift(A), Lift(B)), Lift(B)) = 0
    /\ (Before(A, B) \/ Before(B, A) \/ A = B) /\ ~(Before(A, B) /\ Before(B, A))
TurnsStayTurns == IsTurn(turn)
HalfTurn == \A u \in {<<1, 0, 0>>, <<0, 1, 0>>, <<0, 0, 1>>} : Mul(Turn(u, 2), Turn(u, 2)) = Unit(3) /\ Mul(Turn(u, 1), Turn(u, 3)) = Unit(3)
\* a box is the smallest that holds its corners; it meets another iff they share a point; moving it moves what it holds
Affine == <<Append(A, 0), Append(B, 0), <<1, -1, 1>>>>
Boxed ==
    /\ Around(Corners(box), 2) = box
    /\ \A c \in Corners(box) : Holds(box, c) /\ Holds(Moved(box, Affine), Move(Affine, c))
    /\ LET o == <<MinOf(A, B), MaxOf(A, B)>> IN
       /\ Meets(box, o) = (\E p \in V2 : Holds(box, p) /\ Holds(o, p))
       /\ Within(Union(box, o), box) /\ Within(Union(box, o), o)
       /\ Within(box, o) = (Union(box, o) = box)
       /\ (BoxBefore(box, o) \/ BoxBefore(o, box) \/ box = o)
Grows == [][Within(box', box)]_box
OneChanges == [][regs' # <<regs[2], regs[1]>> => regs'[1] = regs[1] \/ regs'[2] = regs[2]]_regs
=============================================================================
