SPECIFICATION Spec
CONSTANT MaxNodes = 5
INVARIANTS RoundTrip Stripped Cut Again
CHECK_DEADLOCK FALSE
