CONSTANTS Cap = 2  MaxLen = 10  Tags = {1, 2}  MaxRun = 4
SPECIFICATION Spec
INVARIANTS Same Sound
