SPECIFICATION Spec
CONSTANTS Mode = "edits" MaxTokens = 0 MaxEdits = 5 MaxNodes = 4
INVARIANTS WriteLaw EditLaw LookupLaw
CHECK_DEADLOCK FALSE
