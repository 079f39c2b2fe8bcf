CONSTANT Objects = {1}
SPECIFICATION Spec
INVARIANT InvAll CanFinish
PROPERTY Monotone
CHECK_DEADLOCK FALSE
