SPECIFICATION Spec
CONSTANTS
    Entries = {1, 2, 3, 4}
    Vary = "empty"
INVARIANTS Own
ACTION_CONSTRAINT Emit
CHECK_DEADLOCK FALSE
