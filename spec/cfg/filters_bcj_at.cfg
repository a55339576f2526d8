SPECIFICATION Spec
CONSTANTS
    Filter = "bcj"
    Pieces <- P86b
    Count = 6
    Tails <- NoTail
    Starts = {245, 65530}
    Repeats = {1, 3}
    Branches = {"all"}
INVARIANTS Recovered SameLength Nothing AreBytes
ACTION_CONSTRAINT Emit
CHECK_DEADLOCK FALSE
