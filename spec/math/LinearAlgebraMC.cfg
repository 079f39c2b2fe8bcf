SPECIFICATION Spec
CONSTANTS
  Bound = 1
  Quarters = 1
INVARIANTS Algebra TurnsStayTurns HalfTurn Boxed
PROPERTIES Grows OneChanges
CHECK_DEADLOCK FALSE
