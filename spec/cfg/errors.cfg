SPECIFICATION Spec
CONSTANTS
    MaxLen = 3
    Modes = {"none", "unregistered", "construct", "password", "read", "storage", "early", "garbage"}
INVARIANTS NoFalseHint Exact PasswordHint
ACTION_CONSTRAINT Emit
CHECK_DEADLOCK FALSE
