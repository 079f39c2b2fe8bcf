------------------------------- MODULE Strings -------------------------------
(* Strings with value semantics: what each operation leaves in each string and what it returns.  neolib::string (through its own type and through
   i_string) and quick_string (whether it owns its text or is a view of another one) both have to behave like this. *)
EXTENDS Text
Put(s, p, c) == [s EXCEPT ![p + 1] = c]
After(s, e) ==
    CASE e.e = "assign" -> e.x
      [] e.e = "append" -> s \o e.x
      [] e.e = "insert" -> Splice(s, e.p, 0, e.x)
      [] e.e = "erase" -> Splice(s, e.p, e.n, <<>>)
      [] e.e = "splice" -> Splice(s, e.p, e.n, e.x)
      [] e.e = "resize" -> Resized(s, e.n, e.c)
      [] e.e = "clear" -> <<>>
      [] e.e = "put" -> Put(s, e.p, e.c)
      [] e.e = "replace" -> ReplaceAll(s, e.f, e.y)
      [] OTHER -> s
SignEq(c) == IF c = 0 THEN 1 ELSE 0
Result(s, all, e) ==
    CASE e.e = "insert" -> e.r = e.p
      [] e.e = "read" -> /\ e.size = Len(s) /\ e.empty = (s = <<>>) /\ e.beyond
                         /\ e.front = (IF s = <<>> THEN -1 ELSE s[1]) /\ e.back = (IF s = <<>> THEN -1 ELSE s[Len(s)])
      [] e.e = "cmp" -> LET c == Compare(s, all[e.u + 1]) IN (\A i \in DOMAIN e.c : e.c[i] = c) /\ (\A i \in DOMAIN e.q : e.q[i] = SignEq(c))
      [] e.e = "qcmp" -> LET c == Compare(s, e.y) IN
            (\A i \in DOMAIN e.c : e.c[i] = c) /\ (\A i \in DOMAIN e.q : e.q[i] = SignEq(c)) /\ \A i \in DOMAIN e.k : e.k[i] = Compare(Part(s, e.p, e.n), e.z)
      [] e.e = "find" -> LET C == Range(e.x) IN
            /\ e.r = <<Find(s, e.x, e.from), RFind(s, e.x, e.back), FindFirstIn(s, C, e.from), FindFirstNotIn(s, C, e.from), FindLastIn(s, C, e.back), FindLastNotIn(s, C, e.back)>>
            /\ e.sw = IsPrefix(e.x, s) /\ IsPrefix(e.copy, From(s, e.from)) /\ e.sub = Part(s, e.from, 3)
      [] OTHER -> TRUE
=============================================================================
