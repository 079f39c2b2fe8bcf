SPECIFICATION Spec
CONSTANTS Threads = {1, 2, 3} Events = {1} 
CONSTRAINT Few
INVARIANTS Bounded Sent Free
PROPERTY All
CHECK_DEADLOCK FALSE
