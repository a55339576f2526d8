SPECIFICATION Spec
CONSTANTS
    Shapes <- AllShapes
    Mode = "all"
INVARIANTS Agree Uses Same
ACTION_CONSTRAINT Emit
CHECK_DEADLOCK FALSE
