SPECIFICATION Spec
CONSTANTS
    Filter = "bcj"
    Pieces <- P86
    Count = 8
    Tails <- NoTail
    Starts = {0}
    Repeats = {1}
    Branches = {"all"}
INVARIANTS Recovered SameLength Nothing AreBytes
ACTION_CONSTRAINT Emit
CHECK_DEADLOCK FALSE
