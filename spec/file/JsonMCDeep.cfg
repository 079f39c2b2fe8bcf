SPECIFICATION Spec
CONSTANTS Mode = "texts" MaxTokens = 5 MaxEdits = 0 MaxNodes = 0
INVARIANTS ParseLaw WordLaw CommentLaw PrefixLaw
CHECK_DEADLOCK FALSE
