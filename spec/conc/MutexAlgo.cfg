SPECIFICATION Spec
CONSTANTS Threads = {1, 2, 3} Depth = 2
INVARIANTS Exclusive Counted NoLostWakeup
PROPERTY Abstract
CHECK_DEADLOCK FALSE
