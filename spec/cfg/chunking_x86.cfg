SPECIFICATION Spec
CONSTANTS
    Lengths = {0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16, 17, 18, 19, 20}
    Look = 5
    Unit = 1
    Portions = {1, 2, 3, 4, 5, 6, 7, 30}
    Asks = {1, 2, 3, 4, 5, 6, 7, 8, 11, 30}
    Sharp = FALSE
INVARIANTS Ordered Complete AllConverted
PROPERTIES Progress Fits
VIEW View
CHECK_DEADLOCK FALSE
