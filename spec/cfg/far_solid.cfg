SPECIFICATION Spec
CONSTANTS
    Positions <- PosFew
    Lengths <- LenFew
    MaxStreams = 2
    MaxFiles = 2
INVARIANTS Apart InRange Dense
ACTION_CONSTRAINT Emit
CHECK_DEADLOCK FALSE
