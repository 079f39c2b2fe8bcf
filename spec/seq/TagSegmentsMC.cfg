CONSTANTS Cap = 2  MaxLen = 6  Tags = {1, 2}  MaxRun = 3
SPECIFICATION Spec
INVARIANTS Same Sound
