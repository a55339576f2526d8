SPECIFICATION Spec
CONSTANTS
    Many = 1003
    MaxVolumes = 4
    Size = 4
    Trail = 0
    States = {"ok", "missing", "loop", "directory", "short"}
INVARIANTS NothingHeld InOrder AllOpen Alone Whole Complains
ACTION_CONSTRAINT Emit
CHECK_DEADLOCK FALSE
