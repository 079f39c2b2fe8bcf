SPECIFICATION Spec
CONSTANTS G = 2 NF = 1 MaxLen = 4 MaxIns = 3 Vals = {1, 2} Emit = FALSE MaxDepth = 1000
INVARIANTS TypeOK LiveExactly
PROPERTIES Refines SizeRight
CONSTRAINT Bounded
CHECK_DEADLOCK FALSE
