SPECIFICATION Spec
CONSTANTS
    Handles = {1, 2}
    Kinds = {"good", "other", "cut", "bad", "later"}
    Stubborn = {}
    Keep = 2
VIEW View
INVARIANTS Clean Exclusive Bounded
PROPERTIES Apart
ACTION_CONSTRAINT Emit
CHECK_DEADLOCK FALSE
