SPECIFICATION Spec
CONSTANTS
    Many = 0
    MaxVolumes = 3
    Size = 3
    Trail = 2
    States = {"ok", "missing", "loop", "directory", "short"}
INVARIANTS NothingHeld InOrder AllOpen Alone Whole Complains
ACTION_CONSTRAINT Emit
CHECK_DEADLOCK FALSE
