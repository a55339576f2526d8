SPECIFICATION Spec
CONSTANTS
    Shapes <- FiveShapes
    Mode = "all"
INVARIANTS Agree Uses Same
ACTION_CONSTRAINT Emit
CHECK_DEADLOCK FALSE
