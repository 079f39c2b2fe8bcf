SPECIFICATION Spec
CONSTANTS Threads = {1, 2, 3} MaxGen = 3
INVARIANTS Counted Awake Released
PROPERTIES Abstract Leaves
CHECK_DEADLOCK FALSE
