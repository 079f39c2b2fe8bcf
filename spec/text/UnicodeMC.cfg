SPECIFICATION Spec
CONSTANTS Kinds = {"points", "bytes"} MaxText = 4 MaxPat = 4 MaxBytes = 3 MaxPoints = 3
INVARIANTS PointsLaw BytesLaw
CHECK_DEADLOCK FALSE