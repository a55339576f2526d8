SPECIFICATION Spec
CONSTANTS
    Filter = "arm"
    Pieces <- PARM
    Count = 3
    Tails <- Tails4
    Starts = {0, 248, 262136}
    Repeats = {1}
    Branches = {"all"}
INVARIANTS Recovered SameLength Nothing AreBytes
ACTION_CONSTRAINT Emit
CHECK_DEADLOCK FALSE
