SPECIFICATION Spec
CONSTANTS Threads = {1, 2} Depth = 1
INVARIANTS Exclusive Counted NoLostWakeup
PROPERTIES Abstract Served
CHECK_DEADLOCK FALSE
