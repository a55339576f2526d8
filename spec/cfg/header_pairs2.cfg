SPECIFICATION Spec
CONSTANTS
    Use = {"solid", "none", "encoded"}
    Deviations = 2
    IdAlts = {0, 10}
    NumAlts = {900001, 900005, 900007}
INVARIANTS
    FilesInRange
    PlacesInRange
    SizesInRange
    FoldersInRange
    MeantIsFine
ACTION_CONSTRAINT Emit
CHECK_DEADLOCK FALSE
