SPECIFICATION Spec
CONSTANTS
    Sizes <- SizesThree
    Handles = {1, 2}
PROPERTIES StayFailed ThrownAway Recovers Mended
VIEW vars
ACTION_CONSTRAINT Emit
CHECK_DEADLOCK FALSE
