SPECIFICATION Spec
CONSTANTS
    Perms = {0, 1, 8, 64, 146, 292, 420, 493, 511}
    Dos = {0, 34, 32768, 9252}
INVARIANTS Dirs Range
ACTION_CONSTRAINT Emit
CHECK_DEADLOCK FALSE
