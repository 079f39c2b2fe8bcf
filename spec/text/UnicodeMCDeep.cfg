SPECIFICATION Spec
CONSTANTS Kinds = {"points", "bytes"} MaxText = 4 MaxPat = 4 MaxBytes = 4 MaxPoints = 4
INVARIANTS PointsLaw BytesLaw
CHECK_DEADLOCK FALSE