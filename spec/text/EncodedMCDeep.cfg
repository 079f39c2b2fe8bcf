SPECIFICATION Spec
CONSTANTS Width = 15 Deep = TRUE
INVARIANTS UBack SBack UShort SShort VBack Total Transitive
CHECK_DEADLOCK FALSE
