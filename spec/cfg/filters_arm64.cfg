SPECIFICATION Spec
CONSTANTS
    Filter = "arm64"
    Pieces <- PARM64
    Count = 3
    Tails <- Tails4
    Starts = {0, 4092, 262136}
    Repeats = {1}
    Branches = {"all"}
INVARIANTS Recovered SameLength Nothing AreBytes
ACTION_CONSTRAINT Emit
CHECK_DEADLOCK FALSE
