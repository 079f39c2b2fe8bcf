SPECIFICATION Spec
CONSTANTS MaxLen = 7 Keys = {0, 1, 2, 3} MaxGuards = 6
INVARIANTS Sorts PutBack
CHECK_DEADLOCK FALSE
