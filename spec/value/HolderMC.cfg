SPECIFICATION Spec
CONSTANTS Slots = 3 Kinds = {1, 2} Values = {0, 1} MaxObjects = 5
INVARIANTS Owned Counted Ordered
CHECK_DEADLOCK FALSE
