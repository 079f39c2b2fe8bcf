-------------------------- MODULE LinearAlgebraTrace --------------------------
(* Recorded results of vector, matrix and box operations, and histories of registers changed in place, against
   LinearAlgebra. *)
EXTENDS TraceBase, FiniteSets, SequencesExt
VARIABLES regs
vars == <<l, regs>>
L == INSTANCE LinearAlgebra

Order(a, b, lt(_, _)) == <<lt(a, b), lt(b, a), ~lt(b, a), ~lt(a, b), a = b, a # b>>
List(v) == FoldLeft(LAMBDA t, x : IF t = "" THEN x ELSE t \o ", " \o x, "", v)
Text(v) == "[" \o List([i \in DOMAIN v |-> ToString(v[i])]) \o "]"
MText(m) == "[" \o List([r \in 1..L!Rows(m) |-> Text(L!Row(m, r))]) \o "]"
First(v) == [i \in DOMAIN v |-> IF i = 1 THEN v[1] ELSE 0]

VectorOK == LET a == Ev.a  b == Ev.b  s == Ev.s  r == Ev.r IN
    CASE Ev.op = "add" -> r = L!Add(a, b)
      [] Ev.op = "sub" -> r = L!Sub(a, b)
      [] Ev.op = "neg" -> r = L!Neg(a)
      [] Ev.op = "addScalar" -> r = L!Plus(a, s)
      [] Ev.op = "subScalar" -> r = L!Plus(a, -s)
      [] Ev.op = "scalarSub" -> r = L!Plus(L!Neg(a), s)
      [] Ev.op = "mul" -> r = L!Scaled(a, s)
      [] Ev.op \in {"div", "same"} -> r = a
      [] Ev.op = "rem" -> r = [i \in DOMAIN a |-> L!Rem(a[i], s)]
      [] Ev.op = "times" -> r = L!Times(a, b)
      [] Ev.op = "min" -> r = L!MinOf(a, b)
      [] Ev.op = "max" -> r = L!MaxOf(a, b)
      [] Ev.op = "dot" -> r = L!Dot(a, b)
      [] Ev.op = "least" -> r = L!LeastIn({a[i] : i \in DOMAIN a})
      [] Ev.op = "length" -> L!IsRoot(r, L!Dot(a, a))
      [] Ev.op = "distance" -> L!IsRoot(r, L!Dot(L!Sub(a, b), L!Sub(a, b)))
      [] Ev.op = "order" -> r = Order(a, b, L!Before)
      [] Ev.op = "floor" -> r = [i \in DOMAIN a |-> L!FloorDiv(a[i], 2)]
      [] Ev.op = "ceil" -> r = [i \in DOMAIN a |-> -L!FloorDiv(-a[i], 2)]
      [] Ev.op = "round" -> r = [i \in DOMAIN a |-> L!Nearest(a[i], 3)]
      [] Ev.op = "lerp" -> r = L!Add(a, L!Scaled(L!Sub(b, a), s))
      [] Ev.op = "nearly" -> r = <<a = b, TRUE, a[1] = b[1], a[1] = b[1], FALSE>>
      [] Ev.op = "text" -> r = <<a, Text(a)>>
      [] Ev.op = "outer" -> r = L!Outer(b, a)
      [] Ev.op = "each" -> r = <<a, b>>
      [] Ev.op = "each+" -> r = <<L!Add(a, b), L!Add(b, b)>>
      [] Ev.op = "each-" -> r = <<L!Sub(a, b), L!Sub(b, b)>>
      [] Ev.op = "-each" -> r = <<L!Sub(b, a), L!Sub(b, b)>>
      [] Ev.op = "widen" -> r = [i \in 1..5 |-> IF i <= Len(a) THEN a[i] ELSE 0]
      [] Ev.op = "narrow" -> r = SubSeq(a, 1, s)
      [] Ev.op = "first" -> r = First(a)
      [] Ev.op = "refused" -> r = <<TRUE>>

MatrixOK == LET a == Ev.a  b == Ev.b  v == Ev.v  w == Ev.w  s == Ev.s  r == Ev.r IN
    CASE Ev.op = "add" -> r = L!MAdd(a, b)
      [] Ev.op = "sub" -> r = L!MSub(a, b)
      [] Ev.op = "neg" -> r = [c \in DOMAIN a |-> L!Neg(a[c])]
      [] Ev.op = "mul" -> r = L!Mul(a, b)
      [] Ev.op = "square" -> r = L!Mul(a, a)
      [] Ev.op = "scale" -> r = [c \in DOMAIN a |-> L!Scaled(a[c], s)]
      [] Ev.op = "double" -> r = [c \in DOMAIN a |-> L!Scaled(a[c], 2)]
      [] Ev.op = "addScalar" -> r = [c \in DOMAIN a |-> L!Plus(a[c], s)]
      [] Ev.op = "subScalar" -> r = [c \in DOMAIN a |-> L!Plus(a[c], -s)]
      [] Ev.op = "scalarSub" -> r = [c \in DOMAIN a |-> L!Plus(L!Neg(a[c]), s)]
      [] Ev.op \in {"div", "same"} -> r = a
      [] Ev.op = "transposed" -> r = L!Transposed(a)
      [] Ev.op = "apply" -> r = L!Apply(a, v)
      [] Ev.op = "row" -> r = L!RowApply(w, a)
      [] Ev.op = "applyEach" -> r = <<L!Apply(a, v), L!Apply(a, v)>>
      [] Ev.op = "rowEach" -> r = <<L!RowApply(w, a), L!RowApply(w, a)>>
      [] Ev.op = "identity" -> r = <<a = L!Unit(Len(a))>>
      [] Ev.op = "unit" -> r = L!Unit(Len(a))
      [] Ev.op = "equal" -> r = <<a = b, a # b>>
      [] Ev.op = "untranslated" -> r = L!Untranslated(a)
      [] Ev.op = "roundThird" -> r = [c \in DOMAIN a |-> [i \in DOMAIN a[c] |-> L!Nearest(a[c][i], 3)]]
      [] Ev.op = "text" -> r = MText(a)

BoxOK == LET a == Ev.a  b == Ev.b  m == Ev.m  k == Ev.k  p == Ev.p  n == Len(p)  size == Ev.size  pts == {Ev.pts[i] : i \in DOMAIN Ev.pts}  r == Ev.r  half == [i \in DOMAIN size |-> size[i] \div 2] IN
    CASE Ev.op = "union" -> r = L!Union(a, b)
      [] Ev.op = "contains" -> r = <<L!Within(a, b)>>
      [] Ev.op = "holds" -> r = <<L!Holds(a, p)>>
      [] Ev.op = "meets" -> r = <<L!Meets(a, b)>>
      [] Ev.op = "never" -> r = <<FALSE, FALSE, FALSE>>
      [] Ev.op = "volume" -> r = L!Volume(a)
      [] Ev.op = "area" -> r = L!Area(a)
      [] Ev.op = "extents" -> r = L!Extents(a)
      [] Ev.op = "middle" -> r = L!Add(a[1], a[2])
      [] Ev.op = "moved" -> r = L!Moved(a, m)
      [] Ev.op = "movedTwice" -> r = L!Moved(a, L!Mul(m, k))
      [] Ev.op = "sized" -> r = <<L!Sub(p, half), L!Add(p, half)>>
      [] Ev.op = "cube" -> r = <<L!Plus(p, -half[1]), L!Plus(p, half[1])>>
      [] Ev.op = "around" -> r = L!Around(pts, n)
      [] Ev.op = "aroundMoved" -> r = L!Moved(L!Around(pts, n), m)
      [] Ev.op = "flat" -> r = L!Flat(L!Around(pts, n))
      [] Ev.op = "flatMoved" -> r = L!Flat(L!Moved(L!Around(pts, n), m))
      [] Ev.op = "order" -> r = <<L!BoxBefore(a, b), a = b, L!BoxBefore(b, a), a # b>>
      [] Ev.op = "points" -> r = [i \in DOMAIN Ev.pts |-> L!Move(m, Ev.pts[i])]
      [] Ev.op = "point" -> r = L!Move(m, p)
      [] Ev.op = "midpoint" -> r = L!Add(p, half)
      [] Ev.op = "cross" -> r = L!Cross(p, size)

\* the turn that faces b's way what faced a's: any turn that does
FacingOK == L!IsTurn(Ev.r) /\ L!Apply(Ev.r, L!Direction(Ev.a)) = L!Direction(Ev.b) /\ (L!Direction(Ev.a) = L!Direction(Ev.b) => Ev.r = L!Unit(3))

Between(x, y, t) == [i \in DOMAIN x |-> IF t[i] = 0 THEN x[i] ELSE y[i]]
BetweenOK == LET e == L!Place(Between(Ev.t0, Ev.t1, Ev.at), L!Euler(Between(Ev.r0, Ev.r1, Ev.ar)), Between(Ev.s0, Ev.s1, Ev.as)) IN Ev.r = e /\ Ev.g = e

PlaceOK == LET m == Ev.m  s == Ev.s IN
    /\ Ev.moved = [m EXCEPT ![4] = L!Add(m[4], Append(s, 0))] /\ Ev.moved2 = [m EXCEPT ![4] = L!Add(m[4], <<s[1], s[2], 0, 0>>)]
    /\ Ev.scaled = [c \in 1..4 |-> IF c = 4 THEN m[4] ELSE L!Scaled(m[c], s[c])] /\ Ev.scaled2 = [c \in 1..4 |-> IF c > 2 THEN m[c] ELSE L!Scaled(m[c], s[c])]

CurveOK == LET p == Ev.p IN Ev.r = <<p[1], [i \in 1..2 |-> (p[1][i] + 3 * p[2][i] + 3 * p[3][i] + p[4][i]) \div 8], p[4]>>

Changed == LET a == Ev.a  b == Ev.b  s == Ev.s  x == regs[a]  y == regs[b]  k == Len(Ev.ix) \div 2 IN
    CASE Ev.op = "add" -> [regs EXCEPT ![a] = L!Add(x, y)]
      [] Ev.op = "sub" -> [regs EXCEPT ![a] = L!Sub(x, y)]
      [] Ev.op = "times" -> [regs EXCEPT ![a] = L!Times(x, y)]
      [] Ev.op = "mul" -> [regs EXCEPT ![a] = L!Scaled(x, s)]
      [] Ev.op = "addScalar" -> [regs EXCEPT ![a] = L!Plus(x, s)]
      [] Ev.op = "subScalar" -> [regs EXCEPT ![a] = L!Plus(x, -s)]
      [] Ev.op = "undouble" -> regs
      [] Ev.op = "neg" -> [regs EXCEPT ![a] = L!Neg(x)]
      [] Ev.op = "copy" -> [regs EXCEPT ![a] = y]
      [] Ev.op = "swap" -> [regs EXCEPT ![a] = y, ![b] = x]
      [] Ev.op = "element" -> [regs EXCEPT ![a][s] = y[Len(y) - s + 1]]
      [] Ev.op = "fill" -> [regs EXCEPT ![a] = L!Swizzle(x, Ev.ix, [i \in DOMAIN Ev.ix |-> s])]
      [] Ev.op = "swizzle" -> [regs EXCEPT ![a] = L!Swizzle(x, SubSeq(Ev.ix, 1, k), L!Pick(y, SubSeq(Ev.ix, k + 1, 2 * k)))]

TInit == l = 1 /\ regs = <<>>
Next ==
    \/ IsEvent("vector") /\ VectorOK /\ UNCHANGED regs
    \/ IsEvent("matrix") /\ MatrixOK /\ UNCHANGED regs
    \/ IsEvent("box") /\ BoxOK /\ UNCHANGED regs
    \/ IsEvent("quad") /\ Ev.r = <<Ev.w[1], Ev.h[2]>> /\ UNCHANGED regs
    \/ IsEvent("turn") /\ Ev.r = L!Turn(Ev.axis, Ev.q) /\ UNCHANGED regs
    \/ IsEvent("euler") /\ Ev.r = L!Euler(Ev.k) /\ Ev.affine = L!Wider(L!Euler(Ev.k)) /\ UNCHANGED regs
    \/ IsEvent("facing") /\ FacingOK /\ UNCHANGED regs
    \/ IsEvent("place") /\ PlaceOK /\ UNCHANGED regs
    \/ IsEvent("between") /\ BetweenOK /\ UNCHANGED regs
    \/ IsEvent("curve") /\ CurveOK /\ UNCHANGED regs
    \/ IsEvent("lanes") /\ Ev.r = Ev.a /\ UNCHANGED regs
    \/ IsEvent("random") /\ Ev.repeats /\ ~Ev.over /\ Ev.seen = Ev.upper + 1 /\ UNCHANGED regs
    \/ IsEvent("reset") /\ regs' = Ev.regs
    \/ IsEvent("change") /\ regs' = Changed /\ Ev.regs = regs'
    \/ IsEvent("end") /\ UNCHANGED regs
Spec == TInit /\ [][Next]_vars
=============================================================================
