SPECIFICATION Spec
CONSTANTS Kinds = {"wild", "split", "repl", "esc"} MaxText = 6 MaxPat = 5 MaxBytes = 3 MaxPoints = 3
INVARIANTS WildLaw SplitLaw ReplLaw EscLaw
CHECK_DEADLOCK FALSE