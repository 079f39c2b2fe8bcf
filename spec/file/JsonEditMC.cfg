SPECIFICATION Spec
CONSTANTS Mode = "edits" MaxTokens = 0 MaxEdits = 3 MaxNodes = 4
INVARIANTS WriteLaw EditLaw LookupLaw
CHECK_DEADLOCK FALSE
