SPECIFICATION Spec
CONSTANTS Callers = {1, 2} Calls = 2 Others = 2 Attach = FALSE Fail = TRUE
INVARIANTS Once Truth Waited
PROPERTIES Final 
CHECK_DEADLOCK FALSE
