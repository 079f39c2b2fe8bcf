SPECIFICATION Spec
CONSTANT Framed = TRUE
POSTCONDITION TraceAccepted
CHECK_DEADLOCK FALSE
