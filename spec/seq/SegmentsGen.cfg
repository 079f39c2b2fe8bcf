SPECIFICATION Spec
CONSTANTS S = 4 MaxLen = 12 MaxIns = 6 Vals = {1} Emit = TRUE MaxDepth = 4
INVARIANTS SegmentsOK
CONSTRAINT Bounded
VIEW Shape
CHECK_DEADLOCK FALSE
