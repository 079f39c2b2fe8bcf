SPECIFICATION Spec
CONSTANTS MaxLen = 5 Keys = {0, 1, 2} MaxGuards = 4
INVARIANTS Sorts PutBack
CHECK_DEADLOCK FALSE
