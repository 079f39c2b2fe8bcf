SPECIFICATION Spec
CONSTANT Deep = FALSE
INVARIANTS RoundTrip Clean DecodeEncode
CHECK_DEADLOCK FALSE
