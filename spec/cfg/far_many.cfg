SPECIFICATION Spec
CONSTANTS
    Positions <- PosAll
    Lengths <- LenAll
    MaxStreams = 2
    MaxFiles = 1
INVARIANTS Apart InRange Dense
ACTION_CONSTRAINT Emit
CHECK_DEADLOCK FALSE
