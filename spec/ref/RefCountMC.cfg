SPECIFICATION Spec
CONSTANTS Slots = {1, 2} Weaks = {1} MaxObj = 2 MaxRaw = 1
INVARIANTS NoDangling DeadOnce NoZombie DeadEmpty
PROPERTIES NoReturn
CHECK_DEADLOCK FALSE
