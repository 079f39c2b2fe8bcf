SPECIFICATION Spec
CONSTANTS Threads = {1, 2, 3} Locks = {1, 2} Depth = 2
INVARIANTS Exclusive Held NoCircle
PROPERTY OwnerOnly
CHECK_DEADLOCK FALSE
