CONSTANTS Per = 2  MaxChunks = 4  Omega = FALSE
SPECIFICATION Spec
INVARIANTS Disjoint Complete NotOmega
CHECK_DEADLOCK FALSE
