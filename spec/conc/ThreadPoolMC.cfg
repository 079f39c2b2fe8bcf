SPECIFICATION Spec
CONSTANTS
 Clients = {1, 2}
 Calls = 2
 Tasks = 3
 Size = 1
 MaxSize = 2
 Ops = {"start", "try", "cancel", "wait", "stop"}
INVARIANTS OnePlace Only NotLost Skipped Conserving Sorted Idleness Stopped
PROPERTIES Progress Waits NothingAfterStop
CHECK_DEADLOCK FALSE
