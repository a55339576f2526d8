SPECIFICATION Spec
CONSTANTS
    Filter = "delta3"
    Pieces <- PDelta
    Count = 7
    Tails <- NoTail
    Starts = {0}
    Repeats = {1}
    Branches = {"all"}
INVARIANTS Recovered SameLength Nothing AreBytes
ACTION_CONSTRAINT Emit
CHECK_DEADLOCK FALSE
