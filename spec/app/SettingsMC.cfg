SPECIFICATION Spec
CONSTANTS
 Keys = {1, 2}
 Vals = {1, 2}
 Budget = 5
 Filed = TRUE
INVARIANTS TypeOK PendingDiffers ClearMeans Once Paired ApplyClean Saved Quiet
PROPERTIES Announced DiscardKeeps ShowsPending ComesBack NoGhost
CHECK_DEADLOCK FALSE
