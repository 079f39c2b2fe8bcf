----------------------------- MODULE LinearAlgebra -----------------------------
(* Vectors, matrices, turns and boxes over whole numbers.  A vector is a sequence of its elements, a matrix the
   sequence of its columns, a box the pair of its least and its greatest corner.  P32. *)
EXTENDS Integers, Sequences, SequencesExt, FiniteSets

Sum(s) == FoldLeft(LAMBDA x, y : x + y, 0, s)
Abs(x) == IF x < 0 THEN -x ELSE x
Sign(x) == IF x < 0 THEN -1 ELSE IF x > 0 THEN 1 ELSE 0
Least(x, y) == IF x < y THEN x ELSE y
Most(x, y) == IF x > y THEN x ELSE y
FloorDiv(x, d) == x \div d                      \* TLC's \div rounds down
Rem(x, d) == Sign(x) * (Abs(x) % d)             \* what is left has the sign of what was divided
Nearest(x, d) == FloorDiv(2 * x + d, 2 * d)     \* for odd d there is no tie

Map(F(_), v) == [i \in DOMAIN v |-> F(v[i])]
Add(a, b) == [i \in DOMAIN a |-> a[i] + b[i]]
Sub(a, b) == [i \in DOMAIN a |-> a[i] - b[i]]
Times(a, b) == [i \in DOMAIN a |-> a[i] * b[i]]
Neg(a) == [i \in DOMAIN a |-> -a[i]]
Scaled(a, s) == [i \in DOMAIN a |-> a[i] * s]
Plus(a, s) == [i \in DOMAIN a |-> a[i] + s]
MinOf(a, b) == [i \in DOMAIN a |-> Least(a[i], b[i])]
MaxOf(a, b) == [i \in DOMAIN a |-> Most(a[i], b[i])]
Dot(a, b) == Sum(Times(a, b))
Cross(a, b) == <<a[2] * b[3] - a[3] * b[2], a[3] * b[1] - a[1] * b[3], a[1] * b[2] - a[2] * b[1]>>
\* r is the whole part of the root of n
IsRoot(r, n) == r >= 0 /\ r * r <= n /\ (r + 1) * (r + 1) > n
Before(a, b) == \E i \in DOMAIN a : a[i] < b[i] /\ \A j \in 1..(i - 1) : a[j] = b[j]
Pick(v, ix) == [i \in DOMAIN ix |-> v[ix[i]]]
\* the elements of v named by ix replaced by those of w, all read before any is written
Swizzle(v, ix, w) == [i \in DOMAIN v |-> IF \E k \in DOMAIN ix : ix[k] = i THEN w[CHOOSE k \in DOMAIN ix : ix[k] = i] ELSE v[i]]

Columns(m) == Len(m)
Rows(m) == Len(m[1])
Row(m, r) == [c \in DOMAIN m |-> m[c][r]]
Transposed(m) == [r \in 1..Rows(m) |-> Row(m, r)]
Apply(m, v) == [r \in 1..Rows(m) |-> Dot(Row(m, r), v)]
RowApply(v, m) == [c \in DOMAIN m |-> Dot(v, m[c])]
Mul(a, b) == [c \in DOMAIN b |-> Apply(a, b[c])]
MMap(F(_), m) == [c \in DOMAIN m |-> Map(F, m[c])]
MAdd(a, b) == [c \in DOMAIN a |-> Add(a[c], b[c])]
MSub(a, b) == [c \in DOMAIN a |-> Sub(a[c], b[c])]
Outer(col, row) == [c \in DOMAIN row |-> Scaled(col, row[c])]
Unit(n) == [c \in 1..n |-> [r \in 1..n |-> IF r = c THEN 1 ELSE 0]]
Det3(m) == Dot(m[1], Cross(m[2], m[3]))
\* without what it adds to a point
Untranslated(m) == [m EXCEPT ![Len(m)] = [r \in DOMAIN m[1] |-> IF r = Len(m) THEN m[Len(m)][r] ELSE 0]]

(* points are moved by matrices of one more dimension *)
Move(m, v) == LET w == Apply(m, Append(v, 1)) IN [i \in DOMAIN v |-> w[i]]

(* turns by quarters *)
Sin(q) == <<0, 1, 0, -1>>[(q % 4) + 1]
Cos(q) == <<1, 0, -1, 0>>[(q % 4) + 1]
\* about a unit vector (Rodrigues)
Turn(u, q) == LET a == 1 - Cos(q) IN
    << <<a * u[1] * u[1] + Cos(q), a * u[1] * u[2] + u[3] * Sin(q), a * u[1] * u[3] - u[2] * Sin(q)>>,
       <<a * u[1] * u[2] - u[3] * Sin(q), a * u[2] * u[2] + Cos(q), a * u[2] * u[3] + u[1] * Sin(q)>>,
       <<a * u[1] * u[3] + u[2] * Sin(q), a * u[2] * u[3] - u[1] * Sin(q), a * u[3] * u[3] + Cos(q)>> >>
\* first about x, then y, then z
Euler(k) == Mul(Turn(<<0, 0, 1>>, k[3]), Mul(Turn(<<0, 1, 0>>, k[2]), Turn(<<1, 0, 0>>, k[1])))
Wider(m) == [c \in 1..4 |-> IF c = 4 THEN <<0, 0, 0, 1>> ELSE Append(m[c], 0)]
\* m preserves lengths, angles and handedness
IsTurn(m) == Mul(Transposed(m), m) = Unit(3) /\ Det3(m) = 1
Direction(v) == Map(Sign, v)     \* of a vector along an axis
Place(t, r, s) == <<Append(Scaled(r[1], s[1]), 0), Append(Scaled(r[2], s[2]), 0), Append(Scaled(r[3], s[3]), 0), Append(t, 1)>>

(* boxes *)
Corner(b, upper) == [i \in DOMAIN b[1] |-> IF i \in upper THEN b[2][i] ELSE b[1][i]]
Corners(b) == {Corner(b, u) : u \in SUBSET (DOMAIN b[1])}
LeastIn(S) == CHOOSE x \in S : \A y \in S : x <= y
MostIn(S) == CHOOSE x \in S : \A y \in S : x >= y
\* the smallest box around some points of dimension n; around none: the origin
Around(S, n) == IF S = {} THEN <<[i \in 1..n |-> 0], [i \in 1..n |-> 0]>>
                ELSE <<[i \in 1..n |-> LeastIn({p[i] : p \in S})], [i \in 1..n |-> MostIn({p[i] : p \in S})]>>
Moved(b, m) == Around({Move(m, c) : c \in Corners(b)}, Len(b[1]))
Holds(b, p) == \A i \in DOMAIN p : b[1][i] <= p[i] /\ p[i] <= b[2][i]
Within(o, i) == Holds(o, i[1]) /\ Holds(o, i[2])
Meets(a, b) == \A i \in DOMAIN a[1] : a[1][i] <= b[2][i] /\ b[1][i] <= a[2][i]
Union(a, b) == <<MinOf(a[1], b[1]), MaxOf(a[2], b[2])>>
Extents(b) == Sub(b[2], b[1])
Area(b) == Extents(b)[1] * Extents(b)[2]
\* a box flat in the third direction counts by its area
Volume(b) == Area(b) * (IF Extents(b)[3] = 0 THEN 1 ELSE Extents(b)[3])
BoxBefore(a, b) == Before(Reverse(a[1]) \o Reverse(a[2]), Reverse(b[1]) \o Reverse(b[2]))
Flat(b) == <<SubSeq(b[1], 1, 2), SubSeq(b[2], 1, 2)>>
=============================================================================
