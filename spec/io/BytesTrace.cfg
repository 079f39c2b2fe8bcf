SPECIFICATION Spec
CONSTANT Framed = FALSE
POSTCONDITION TraceAccepted
CHECK_DEADLOCK FALSE
