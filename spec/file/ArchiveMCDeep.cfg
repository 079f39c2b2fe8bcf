SPECIFICATION Spec
CONSTANTS MaxItems = 2 Values = {0, 1, 46, 80, 255}
INVARIANTS Faithful Inside Reported Apart
CHECK_DEADLOCK FALSE
