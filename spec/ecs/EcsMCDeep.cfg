SPECIFICATION Spec
CONSTANTS MaxId = 3 MaxQueue = 3 MaxHandle = 2
INVARIANT Implements
PROPERTY Kept
CHECK_DEADLOCK FALSE
