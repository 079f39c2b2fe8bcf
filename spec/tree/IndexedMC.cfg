CONSTANTS Max = 4  Lens = {0, 1, 2}
SPECIFICATION Spec
INVARIANT Inverse
