SPECIFICATION Spec
CONSTANTS Entities = {1, 2, 3, 4} Values = {1, 2} MaxHeld = 2
INVARIANT Implements
CHECK_DEADLOCK FALSE
