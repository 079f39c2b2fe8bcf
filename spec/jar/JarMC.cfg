SPECIFICATION Spec
CONSTANTS Cap = 4 Holders = {1, 2}
INVARIANTS Distinct Disjoint HeldStay
PROPERTY Stable
CHECK_DEADLOCK FALSE
