SPECIFICATION Spec
CONSTANT Deep = TRUE
INVARIANTS RoundTrip Clean DecodeEncode
CHECK_DEADLOCK FALSE
