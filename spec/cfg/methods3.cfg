SPECIFICATION Spec
CONSTANTS
    Departures = 3
INVARIANT TypeOK
ACTION_CONSTRAINT Emit
CHECK_DEADLOCK FALSE
