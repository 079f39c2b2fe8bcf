CONSTANTS MaxSize = 5
SPECIFICATION Spec
INVARIANTS Structure Counts Seen Family
