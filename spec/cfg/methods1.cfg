SPECIFICATION Spec
CONSTANTS
    Departures = 1
INVARIANT TypeOK
ACTION_CONSTRAINT Emit
CHECK_DEADLOCK FALSE
