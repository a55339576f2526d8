SPECIFICATION Spec
CONSTANTS
    Use = {"one", "plain", "solid", "times", "graph", "twoout", "three", "none", "encoded"}
    Deviations = 1
    IdAlts = {0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16, 17, 18, 20, 21, 22, 23, 24, 25, 26, 255}
    NumAlts = {900001, 900002, 900003, 900004, 900005, 900006, 900007}
INVARIANTS
    FilesInRange
    PlacesInRange
    SizesInRange
    FoldersInRange
    MeantIsFine
ACTION_CONSTRAINT Emit
CHECK_DEADLOCK FALSE
