SPECIFICATION Spec
CONSTANTS
  Bound = 2
  Quarters = 0
INVARIANTS Algebra TurnsStayTurns HalfTurn Boxed
PROPERTIES Grows OneChanges
CHECK_DEADLOCK FALSE
