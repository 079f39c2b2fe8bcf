SPECIFICATION Spec
CONSTANTS
 Texts <- MCTexts
 MaxChunk = 4
 Sends = 3
 Connections = 2
INVARIANTS ChunksDoNotMatter AllArrives FreshStart NeverIdle Waits
PROPERTIES Order Flows
CHECK_DEADLOCK FALSE
