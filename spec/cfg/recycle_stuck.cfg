SPECIFICATION Spec
CONSTANTS
    Handles = {1, 2}
    Kinds = {"good", "stuck"}
    Stubborn = {"stuck"}
    Keep = 2
VIEW View
INVARIANTS Clean Exclusive Bounded
PROPERTIES Apart
ACTION_CONSTRAINT Emit
CHECK_DEADLOCK FALSE
