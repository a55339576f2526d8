SPECIFICATION Spec
CONSTANTS
    Positions <- PosFew
    Lengths <- LenFew
    MaxStreams = 3
    MaxFiles = 1
INVARIANTS Apart InRange Dense
ACTION_CONSTRAINT Emit
CHECK_DEADLOCK FALSE
