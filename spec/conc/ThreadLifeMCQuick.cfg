SPECIFICATION Spec
CONSTANTS Callers = {1, 2} Calls = 2 Others = 1 Attach = FALSE Fail = FALSE
INVARIANTS Once Truth Waited
PROPERTIES Final Ends2
CHECK_DEADLOCK FALSE
