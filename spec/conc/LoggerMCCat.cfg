SPECIFICATION Spec
CONSTANTS
 Threads = {1, 2}
 Calls = 2
 Ops = {"flush", "commit", "thread", "sev", "disable", "register"}
INVARIANTS Once Order Kept Lines
PROPERTIES Back
CHECK_DEADLOCK FALSE
