SPECIFICATION Spec
CONSTANTS
    Departures = 2
INVARIANT TypeOK
ACTION_CONSTRAINT Emit
CHECK_DEADLOCK FALSE
