SPECIFICATION Spec
CONSTANTS Threads = {1, 2} Events = {1, 2} 
CONSTRAINT Few
INVARIANTS Bounded Sent Free
PROPERTY All
CHECK_DEADLOCK FALSE
