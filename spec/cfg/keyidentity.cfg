SPECIFICATION Spec
CONSTANTS
    Letters = {"a", "1", "6", ":"}
    Bytes = {"a", "1", ":"}
    Costs = {0, 1, 11, 63}
    MaxPassword = 3
    MaxSalt = 2
ACTION_CONSTRAINT Emit
CHECK_DEADLOCK FALSE
