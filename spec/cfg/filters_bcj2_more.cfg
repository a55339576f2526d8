SPECIFICATION Spec
CONSTANTS
    Filter = "bcj2"
    Pieces <- PBcj2
    Count = 7
    Tails <- NoTail
    Starts = {0}
    Repeats = {1}
    Branches = {"all", "some"}
INVARIANTS Recovered SameLength Nothing AreBytes
ACTION_CONSTRAINT Emit
CHECK_DEADLOCK FALSE
