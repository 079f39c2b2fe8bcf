SPECIFICATION Spec
CONSTRAINT TrackCursor
POSTCONDITION TraceAcceptedSilent
CHECK_DEADLOCK FALSE
