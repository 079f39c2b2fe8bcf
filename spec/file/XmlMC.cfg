SPECIFICATION Spec
CONSTANT MaxNodes = 4
INVARIANTS RoundTrip Stripped Cut Again
CHECK_DEADLOCK FALSE
