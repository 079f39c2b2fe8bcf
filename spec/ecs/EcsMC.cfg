SPECIFICATION Spec
CONSTANTS MaxId = 2 MaxQueue = 2 MaxHandle = 2
INVARIANT Implements
PROPERTY Kept
CHECK_DEADLOCK FALSE
