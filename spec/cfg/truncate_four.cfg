SPECIFICATION Spec
CONSTANTS
    Sizes <- SizesFour
    Other = 2
    Handles = {1, 2}
INVARIANTS Readable NothingInvented
VIEW vars
ACTION_CONSTRAINT Emit
CHECK_DEADLOCK FALSE
