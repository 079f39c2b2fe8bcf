SPECIFICATION Spec
CONSTANTS
 Texts <- MCTexts
 MaxChunk = 5
 Sends = 4
 Connections = 2
INVARIANTS ChunksDoNotMatter AllArrives FreshStart NeverIdle Waits
PROPERTIES Order Flows
CHECK_DEADLOCK FALSE
