SPECIFICATION Spec
CONSTANTS
 Ids = {1, 2}
 MaxNow = 3
 Depth = 4
 Budget = 4
INVARIANTS Once WaitingEnabled Complete Moves
PROPERTIES NeverEarly PollEnds
CHECK_DEADLOCK FALSE
