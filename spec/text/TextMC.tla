------------------------------- MODULE TextMC -------------------------------
(* The laws the text rules have to obey, for all small texts, patterns, delimiters and code point sequences.  Texts grow by one character a step,
   so TLC enumerates them all; each law is an invariant. *)
EXTENDS Text, TLC
CONSTANTS Kinds, MaxText, MaxPat, MaxBytes, MaxPoints
U == INSTANCE Unicode
VARIABLES kind, x, y
vars == <<kind, x, y>>
Alpha == {97, 98}
PatAlpha == {97, 98, Star, AnyOne}
Points == {0, 127, 128, 2047, 2048, 55295, 57344, 65533, 65535, 65536, 1114111}
Bytes == {65, 128, 143, 144, 159, 160, 191, 192, 194, 224, 237, 239, 240, 244, 245, 255}
EscAlpha == {Backslash, 110, 120, 52, 97}
Init == /\ kind \in Kinds /\ x = <<>> /\ y = <<>>
Grow(v, A, n) == Len(v) < n /\ \E c \in A : v' = Append(v, c)
Next == /\ UNCHANGED kind
        /\ CASE kind = "wild" -> \/ (Grow(y, PatAlpha, MaxPat) /\ x = <<>> /\ UNCHANGED x)
                                  \/ (Grow(x, Alpha, MaxText) /\ UNCHANGED y)
             [] kind = "split" -> \/ (Grow(y, {98, 99}, 2) /\ x = <<>> /\ UNCHANGED x)
                                  \/ (Grow(x, {97, 98, 99}, MaxText) /\ UNCHANGED y)
             [] kind = "repl" -> \/ (Grow(y, Alpha, 3) /\ x = <<>> /\ UNCHANGED x)
                                  \/ (Grow(x, Alpha, MaxText + 1) /\ UNCHANGED y)
             [] kind = "esc" -> Grow(x, EscAlpha, MaxText) /\ UNCHANGED y
             [] kind = "points" -> Grow(x, Points, MaxPoints) /\ UNCHANGED y
             [] OTHER -> Grow(x, Bytes, MaxBytes) /\ UNCHANGED y
Spec == Init /\ [][Next]_vars

\* pieces between stars, matched from left to right at their first place, the last one at the end: the algorithm of do_wildcard_match
FitAt(t, p, i) == i + Len(p) <= Len(t) /\ \A k \in DOMAIN p : p[k] = AnyOne \/ p[k] = t[i + k]
FindFit(t, p, i) == FirstOf({k \in i..(Len(t) - Len(p)) : FitAt(t, p, k)})
RECURSIVE Greedy(_, _, _)
Greedy(t, ps, i) == IF Len(ps) = 1 THEN Len(t) - Len(Head(ps)) >= i /\ FitAt(t, Head(ps), Len(t) - Len(Head(ps)))
                    ELSE LET f == FindFit(t, Head(ps), i) IN f # NPos /\ Greedy(t, Tail(ps), f + Len(Head(ps)))
Pieces(p) == Split(p, <<Star>>, FALSE, 0)
WildGreedy(t, p) == LET ps == Pieces(p) IN
    IF Len(ps) = 1 THEN Len(t) = Len(p) /\ FitAt(t, p, 0) ELSE FitAt(t, Head(ps), 0) /\ Greedy(t, Tail(ps), Len(Head(ps)))
WildLaw == kind = "wild" => /\ Wild(x, y) = WildGreedy(x, y)
                            /\ (Range(y) \cap {Star, AnyOne} = {} => Wild(x, y) = (x = y))
                            /\ (Wild(x, y) /\ x # <<>> /\ y # <<>> => <<0, Len(x)>> \in SpansOf(x, y))
                            /\ (y # <<>> => \A s \in SpansOf(x, y) : \E m \in Maximal(SpansOf(x, y)) : m[1] <= s[1] /\ m[2] >= s[2])
NonEmpty(t) == t # <<>>
SplitLaw == kind = "split" =>
    \A w \in BOOLEAN : LET all == Tokens(x, y, 0, FALSE, w)  kept == Tokens(x, y, 0, TRUE, w) IN
        /\ (w \/ Len(y) = 1 => Join(all, y) = x)                                   \* joining what was split gives the text back
        /\ (y # <<>> /\ x # <<>> => kept = SelectSeq(all, NonEmpty))
        /\ (~w /\ y # <<>> => FoldCat(all) = SelectSeq(x, LAMBDA c : c \notin Range(y)))
        /\ (y # <<>> => \A i \in DOMAIN all : IF w THEN Find(all[i], y, 0) = NPos ELSE Range(all[i]) \cap Range(y) = {})
        /\ \A m \in 1..3 : \A k \in BOOLEAN : (y # <<>> => Len(Tokens(x, y, m, k, w)) <= m) /\ IsPrefix(Tokens(x, y, m, k, w), Tokens(x, y, 0, k, w))
ReplLaw == kind = "repl" =>
    LET occ == Occurrences(x, y, 0) IN
    /\ \A i \in DOMAIN occ : At(y, x, occ[i])
    /\ \A i \in 1..(Len(occ) - 1) : occ[i + 1] >= occ[i] + Len(y)
    /\ \A p \in 0..Len(x) : y # <<>> /\ At(y, x, p) => \E i \in DOMAIN occ : occ[i] <= p /\ p < occ[i] + Len(y)   \* none is left out
    /\ ReplaceAll(x, y, y) = x
    /\ \A z \in {<<>>, <<97>>, <<99, 99>>} : Len(ReplaceAll(x, y, z)) = Len(x) + Len(occ) * (Len(z) - Len(y))
    /\ (y # <<>> => Find(ReplaceAll(x, y, <<99>>), y, 0) = NPos)
    /\ (y # <<>> => ReplaceAll(x, y, <<99>>) = Join(Split(x, y, TRUE, 0), <<99>>))
    /\ LET C == Range(y)  t == Trim(x, C) IN t = TrimLeft(TrimRight(x, C), C) /\ (t # <<>> => t[1] \notin C /\ t[Len(t)] \notin C) /\ Trim(t, C) = t /\ (t # <<>> => Find(x, t, 0) # NPos)
    /\ \A p \in 0..Len(x) : RFind(x, y, p) = LastOf({i \in 0..p : At(y, x, i)})
EscLaw == kind = "esc" =>
    /\ (Backslash \notin Range(x) => Unescape(x, 1) = x)
    /\ Unescape(FoldCat([i \in DOMAIN x |-> IF x[i] = Backslash THEN <<Backslash, Backslash>> ELSE <<x[i]>>]), 1) = x
    /\ Len(Unescape(x, 1)) <= Len(x)
PointsLaw == kind = "points" =>
    LET b == U!ToUtf8(x)  h == U!ToUtf16(x) IN
    /\ U!WellFormed8(b) /\ U!FromUtf8(b).out = x                                    \* nothing is lost on the way there and back
    /\ U!WellFormed16(h) /\ U!FromUtf16(h) = x
    /\ Len(U!Map8To16(x, 0)) = Len(b) /\ Range(U!Map8To16(x, 0)) = 0..(Len(h) - 1)
    /\ Len(U!Starts16(x, 0)) = Len(x)
BytesLaw == kind = "bytes" =>
    LET d == U!FromUtf8(x) IN
    /\ \A i \in DOMAIN d.out : U!Scalar(d.out[i])                                   \* whatever comes in, what comes out is well formed
    /\ U!WellFormed8(U!ToUtf8(d.out))
    /\ (d.ok <=> U!ToUtf8(d.out) = x \/ x = <<>>)
    /\ Len(d.at) = Len(d.out) /\ \A i \in 1..(Len(d.at) - 1) : d.at[i] < d.at[i + 1]
=============================================================================
