SPECIFICATION Spec
CONSTANTS
    Costs = {0, 1, 5, 63, 25, 62}
    Skip = 63
    Limit = 24
    Passwords = {1, 2, 3, 4}
INVARIANTS RoundTrip Rejected
ACTION_CONSTRAINT Emit
CHECK_DEADLOCK FALSE
