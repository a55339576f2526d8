SPECIFICATION Spec
CONSTANTS
    Filter = "arm64"
    Pieces <- FarARM64
    Count = 1
    Tails <- NoTail
    Starts <- FarStarts
    Repeats = {5}
    Branches = {"all"}
INVARIANTS Recovered SameLength Nothing AreBytes
ACTION_CONSTRAINT Emit
CHECK_DEADLOCK FALSE
