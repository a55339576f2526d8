SPECIFICATION Spec
CONSTANTS
    Lengths = {0, 1, 4, 5, 6, 7}
    Look = 5
    Unit = 1
    Portions = {1, 3, 9}
    Asks = {1, 2, 5, 9}
INVARIANTS Ordered Complete AllConverted
PROPERTIES Progress Fits
ACTION_CONSTRAINT Emit
CHECK_DEADLOCK FALSE
