SPECIFICATION Spec
CONSTANTS
    Entries = {1, 2, 3}
    Vary = "defined"
INVARIANTS Own
ACTION_CONSTRAINT Emit
CHECK_DEADLOCK FALSE
