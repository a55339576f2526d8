SPECIFICATION Spec
CONSTANTS
    Shapes <- LinearShapes
    Mode = "linear"
INVARIANTS Agree Uses Same
ACTION_CONSTRAINT Emit
CHECK_DEADLOCK FALSE
