SPECIFICATION Spec
CONSTANTS K = {1, 2, 3} V = {1, 2} MaxLen = 4 Multi = TRUE
INVARIANTS Sorted Unique Bounds Whole
PROPERTIES Undisturbed
CHECK_DEADLOCK FALSE
