------------------------------ MODULE TextTrace ------------------------------
(* Every recorded call of a text function against Text and Unicode. *)
EXTENDS TraceBase, FiniteSets
T == INSTANCE Text
U == INSTANCE Unicode
RangeOf(s) == {s[i] : i \in DOMAIN s}
Eq(a, b) == a = b
Init == l = 1
Ok(e) ==
    CASE e.e = "tokens" -> \A v \in {e.r, e.q} : v = T!Tokens(e.x, e.d, e.m, e.k, e.w)
      [] e.e = "wild" -> \A i \in DOMAIN e.t : e.r[i] = T!Wild(e.t[i], e.p)
      [] e.e = "repl" -> LET occ == T!Occurrences(e.x, e.s, 0) IN
            /\ e.out = T!ReplaceAll(e.x, e.s, e.y) /\ e.r = (occ # <<>>) /\ Len(e.so) = Len(e.sp)
            /\ \A i \in DOMAIN e.sp : T!ClearSpan(e.sp[i], Len(e.s), occ) => e.so[i] = <<T!Shift(e.sp[i][1], e.s, e.y, occ), T!Shift(e.sp[i][2], e.s, e.y, occ)>>
      [] e.e = "trim" -> LET C == RangeOf(e.c) IN e.l = T!TrimLeft(e.x, C) /\ e.t = T!TrimRight(e.x, C) /\ e.b = T!Trim(e.x, C)
      [] e.e = "runs" -> LET C == RangeOf(e.c) IN \A p \in 0..(Len(e.x) - 1) : e.rs[p + 1] = T!RunStart(e.x, C, p) /\ e.rf[p + 1] = T!FindLastIn(e.x, C, p)
      [] e.e = "runs0" -> e.rs = -1 /\ e.rf = -1
      [] e.e = "fsa" -> \A k \in DOMAIN e.ps : LET S == T!SpansOf(e.x, e.ps[k]) IN
            /\ Len(e.all[k]) = Cardinality(RangeOf(e.all[k])) /\ RangeOf(e.all[k]) = S
            /\ Len(e.max[k]) = Cardinality(RangeOf(e.max[k])) /\ RangeOf(e.max[k]) = T!Maximal(S)
      [] e.e = "fmt" -> LET f == T!Formatted(e.parts, e.args, <<>>, <<>>) IN
            /\ e.r = f.text /\ e.spans = f.spans
            /\ \A p \in 0..Len(f.text) : e.on[p + 1] = T!SpanningArg(f.spans, p) /\ e.after[p + 1] = T!ArgAfter(f.spans, p)
            /\ \A a \in 0..(Len(e.args) - 1) : LET i == T!FirstOf({k \in DOMAIN f.spans : f.spans[k][1] = a}) IN
                    /\ e.has[a + 1] = (i # T!NPos)
                    /\ (i # T!NPos => e.of[a + 1] = SubSeq(f.text, f.spans[i][2] + 1, f.spans[i][3]))
      [] e.e = "unesc" -> \A v \in {e.r, e.q} : v = T!Unescape(e.x, 1)
      [] e.e = "esc" -> e.r = T!Escaped(e.x, e.m, e.d)
      [] e.e = "url" -> e.r = T!UrlUnescape(e.x, 1)
      [] e.e = "case" -> e.lo = T!Lower(e.x) /\ e.up = T!Upper(e.x)
      [] e.e = "ci" -> LET c == T!Compare(T!Lower(e.a), T!Lower(e.b)) IN
            /\ \A i \in DOMAIN e.eq : e.eq[i] = (c = 0)
            /\ \A i \in DOMAIN e.lt : e.lt[i] = (c < 0)
            \* whether letters sort before or after the signs between them depends on the case they are folded to
            /\ e.lb \in {c < 0, T!Compare(T!Upper(e.a), T!Upper(e.b)) < 0}
      [] e.e = "num" -> \A i \in DOMAIN e.r : e.r[i] = e.x
      [] e.e = "u8" -> LET d == U!FromUtf8(e.x) IN
            /\ \A i \in DOMAIN e.ok : e.ok[i] = d.ok
            /\ e.u32 = d.out /\ e.v32 = d.out /\ e.w32 = d.out /\ e.at32 = d.at /\ e.u16 = U!ToUtf16(d.out) /\ e.v16 = e.u16 /\ e.at16 = d.at /\ e.to16 = U!Starts16(d.out, 0)
            /\ e.back32 = U!ToUtf8(d.out) /\ e.back16 = U!ToUtf8(d.out)
      [] e.e = "u16" -> LET cs == U!FromUtf16(e.x) IN e.r = U!ToUtf8(cs) /\ e.q = e.r /\ e.map = U!Map8To16(cs, 0) /\ e.back = e.x
Next == l <= Len(Trace) /\ Ok(Ev) /\ l' = l + 1
Spec == Init /\ [][Next]_l
=============================================================================
