CONSTANTS Evs = {1}  Slots = {1, 2}  Sinks = {1}  Threads = {1}  Budget = 6  MaxDepth = 2
SPECIFICATION Spec
INVARIANT OncePerTrigger NotAfterUnsub OwnThread Progress
CHECK_DEADLOCK FALSE
