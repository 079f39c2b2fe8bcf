SPECIFICATION Spec
CONSTANTS S = 3 MaxLen = 7 MaxIns = 4 Vals = {1,2} Emit = FALSE MaxDepth = 1000
INVARIANTS SegmentsOK
PROPERTIES Refines
CHECK_DEADLOCK FALSE
