SPECIFICATION Spec
CONSTANTS Width = 10 Deep = FALSE
INVARIANTS UBack SBack UShort SShort VBack Total Transitive
CHECK_DEADLOCK FALSE
