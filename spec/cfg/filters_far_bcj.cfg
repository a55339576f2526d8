SPECIFICATION Spec
CONSTANTS
    Filter = "bcj"
    Pieces <- Far86
    Count = 1
    Tails <- NoTail
    Starts <- FarStarts
    Repeats = {25}
    Branches = {"all"}
INVARIANTS Recovered SameLength Nothing AreBytes
ACTION_CONSTRAINT Emit
CHECK_DEADLOCK FALSE
