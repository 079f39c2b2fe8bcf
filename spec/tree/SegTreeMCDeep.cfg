CONSTANTS MaxSize = 7
SPECIFICATION Spec
INVARIANTS Structure Counts Seen Family
