SPECIFICATION Spec
CONSTANTS S = 2 MaxLen = 5 MaxIns = 3 Vals = {1, 2} Emit = FALSE MaxDepth = 1000
INVARIANTS SegmentsOK
PROPERTIES Refines
CHECK_DEADLOCK FALSE
