SPECIFICATION Spec
CONSTANTS
    Filter = "bcj2"
    Pieces <- PBcj2b
    Count = 3
    Tails <- NoTail
    Starts = {0}
    Repeats = {1, 7, 30}
    Branches = {"all", "none", "some"}
INVARIANTS Recovered SameLength Nothing AreBytes
ACTION_CONSTRAINT Emit
CHECK_DEADLOCK FALSE
