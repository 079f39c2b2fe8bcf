CONSTANTS Per = 3  MaxChunks = 2  Omega = TRUE
SPECIFICATION Spec
INVARIANTS Disjoint Complete NotOmega
CHECK_DEADLOCK FALSE
