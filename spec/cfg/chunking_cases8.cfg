SPECIFICATION Spec
CONSTANTS
    Lengths = {8}
    Look = 5
    Unit = 1
    Portions = {3, 4, 9}
    Asks = {1, 5, 9}
    Sharp = TRUE
INVARIANTS Ordered Complete AllConverted
PROPERTIES Progress Fits
ACTION_CONSTRAINT Emit
CHECK_DEADLOCK FALSE
