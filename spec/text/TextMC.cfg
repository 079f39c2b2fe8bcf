SPECIFICATION Spec
CONSTANTS Kinds = {"wild", "split", "repl", "esc"} MaxText = 4 MaxPat = 4 MaxBytes = 3 MaxPoints = 3
INVARIANTS WildLaw SplitLaw ReplLaw EscLaw
CHECK_DEADLOCK FALSE