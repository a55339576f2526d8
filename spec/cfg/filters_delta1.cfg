SPECIFICATION Spec
CONSTANTS
    Filter = "delta1"
    Pieces <- PDelta
    Count = 6
    Tails <- NoTail
    Starts = {0}
    Repeats = {1}
    Branches = {"all"}
INVARIANTS Recovered SameLength Nothing AreBytes
ACTION_CONSTRAINT Emit
CHECK_DEADLOCK FALSE
