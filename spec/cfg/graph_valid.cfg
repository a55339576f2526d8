SPECIFICATION Spec
CONSTANTS
    Shapes <- ValidShapes
    Mode = "valid"
INVARIANTS Agree Uses Same
ACTION_CONSTRAINT Emit
CHECK_DEADLOCK FALSE
