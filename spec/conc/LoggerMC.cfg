SPECIFICATION Spec
CONSTANTS
 Threads = {1, 2}
 Calls = 2
 Ops = {"flush", "filter", "commit", "wait", "thread", "copy"}
INVARIANTS Once Order Kept Lines
PROPERTIES Back
CHECK_DEADLOCK FALSE
