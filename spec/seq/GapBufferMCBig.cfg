SPECIFICATION Spec
CONSTANTS G = 2 NF = 1 MaxLen = 5 MaxIns = 4 Vals = {1, 2} Emit = FALSE MaxDepth = 1000
INVARIANTS TypeOK LiveExactly
PROPERTIES Refines SizeRight
CONSTRAINT Bounded
CHECK_DEADLOCK FALSE
