SPECIFICATION Spec
CONSTANTS
    Handles = {1}
    Kinds = {"good", "other", "cut", "bad", "later", "noise", "empty"}
    Stubborn = {}
    Keep = 1
VIEW View
INVARIANTS Clean Exclusive Bounded
PROPERTIES Apart
ACTION_CONSTRAINT Emit
CHECK_DEADLOCK FALSE
