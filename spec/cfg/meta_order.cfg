SPECIFICATION Spec
CONSTANTS
    Entries = {2}
    Vary = "order"
INVARIANTS Own
ACTION_CONSTRAINT Emit
CHECK_DEADLOCK FALSE
