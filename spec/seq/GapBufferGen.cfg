SPECIFICATION Spec
CONSTANTS G = 2 NF = 1 MaxLen = 8 MaxIns = 3 Vals = {1} Emit = TRUE MaxDepth = 7
INVARIANTS TypeOK LiveExactly
CONSTRAINT Bounded
VIEW Shape
CHECK_DEADLOCK FALSE
