------------------------------ MODULE SettingsMC ------------------------------
(* Every history of a few settings, with what is announced, saved and found again. *)
EXTENDS Settings, TLC
CONSTANTS Keys, Vals, Budget, Filed
VARIABLES s, ann, left, op
vars == <<s, ann, left, op>>
Cat == [k \in Keys |-> (k + 1) \div 2]
Init == s = Fresh(Keys, Filed) /\ ann = <<>> /\ left = Budget /\ op = "none"
Do(what, r) == s' = r.s /\ ann' = r.ann /\ op' = what /\ left' = left - 1
In == Registered(s)
Next == left > 0 /\
    \/ \E k \in Keys \ In, d \in Vals, opt \in BOOLEAN, f \in 0..Cardinality(Vals) : f \in Loads(s, k) /\ Do("reg", Register(s, k, d, opt, FALSE, f))
    \/ \E k \in In :
        \/ \E v \in Vals : Do("set", Set(s, k, v)) \/ Do("setnow", SetNow(s, k, v)) \/ Do("change", Change(s, k, v, FALSE)) \/ Do("changenow", Change(s, k, v, TRUE)) \/ Do("setdef", SetDefault(s, k, v))
        \/ s.st[k].opt /\ Do("clear", Clear(s, k))
        \/ Do("enable", Enable(s, k, ~s.st[k].en))
        \/ Do("delete", Delete(s, k))
    \/ Do("apply", ApplyAll(s, Cat))
    \/ Do("discard", DiscardAll(s))
    \/ Do("save", Same(Save(s)))
    \/ Do("reopen", Reopen(s))
Spec == Init /\ [][Next]_vars
TypeOK == \A k \in Keys : s.st[k].val \in 0..Cardinality(Vals) /\ s.st[k].new \in -1..Cardinality(Vals) /\ (k \notin In => s.st[k] = NoSetting)
\* a pending value differs from the applied one, or it only returns to a default that shows the same
PendingDiffers == \A k \in In : LET x == s.st[k] IN x.new > 0 /\ x.val > 0 => x.new # x.val
\* a pending return to the default is only possible with something to return from
ClearMeans == \A k \in In : s.st[k].new = 0 => s.st[k].val # 0 /\ s.st[k].opt
Said(k, kinds, a) == \E i \in DOMAIN a : a[i][2] = k /\ a[i][1] \in kinds
Both == Registered(s) \cap Registered(s')
Ordinary == op' \notin {"reg", "reopen", "delete"}
\* what can be seen of a setting changes only with an announcement, and there is none without a change
Announced == [][Ordinary => \A k \in Both :
    /\ (Shown(s.st[k]) # Shown(s'.st[k]) \/ s.st[k].en # s'.st[k].en) => Said(k, {2}, ann') /\ Said(k, {4}, ann')
    /\ (ShownNew(s.st[k]) # ShownNew(s'.st[k]) /\ s.st[k].def = s'.st[k].def) => Said(k, {1, 2}, ann')
    /\ s.st[k] = s'.st[k] => ~Said(k, {1, 2, 3, 4}, ann')]_vars
Once == \A i, j \in DOMAIN ann : ann[i] = ann[j] => i = j
Paired == \A k \in Keys : (Said(k, {1}, ann) <=> Said(k, {3}, ann)) /\ (Said(k, {2}, ann) <=> Said(k, {4}, ann))
\* applying leaves nothing pending and nothing unsaved; discarding leaves the applied values
ApplyClean == op = "apply" => ~Dirty(s)
DiscardKeeps == [][op' = "discard" => \A k \in In : s'.st[k].val = s.st[k].val /\ s'.st[k].new = -1]_vars
ShowsPending == [][op' = "apply" => \A k \in In : Shown(s'.st[k]) = ShownNew(s.st[k])]_vars
\* a saved value comes back when the setting is registered again
ComesBack == [][op' = "reg" /\ Filed => \A k \in Registered(s') \ In : s.store[k].sure /\ s.store[k].v # 0 => Shown(s'.st[k]) = s.store[k].v]_vars
Saved == (op \in {"changenow", "delete", "save"} \/ (op = "apply" /\ ann # <<>>)) /\ Filed => \A k \in In : s.store[k] = [v |-> s.st[k].val, sure |-> TRUE]
\* nobody's value turns up unasked
NoGhost == [][op' = "reg" => \A k \in Registered(s') \ In : s.store[k].v = 0 => IsDefault(s'.st[k])]_vars
Quiet == op \in {"reg", "save", "reopen"} => ann = <<>>
=============================================================================
