SPECIFICATION Spec
CONSTANTS
 Ids = {1, 2}
 MaxNow = 2
 Depth = 4
 Budget = 3
INVARIANTS Once WaitingEnabled Complete Moves
PROPERTIES NeverEarly PollEnds
CHECK_DEADLOCK FALSE
